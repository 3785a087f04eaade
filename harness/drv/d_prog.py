"""C25: programs in mock memory, run step by step."""
from progs import *

w = Writer(A.out)
steps = 0
stops = {}


SHARED = Disassembler()


class Runner(Mock):
    style = 0

    def fetch(self, data, pc):
        if self.style == 0:
            return outcome(data, pc)
        ins, exc = guarded(lambda: next((Disassembler() if self.style == 1 else SHARED).disasm(data, pc), None))
        if exc:
            return {'UndefinedInstructionError': 'undef', 'UnpredictableError': 'unpred'}.get(exc, exc), None
        return ('undef', None) if ins is None else ('ok', ins)

    def block(self, a, bs):
        self.d.write_memory_block(a, bytearray(bs))
        self.w.add(['I', limbs(a), bs])

    def step(self, before, image):
        def go():
            pc = self.d.read_register(15) & ~1
            data = self.d.read_memory_block(pc, 4)
            if data is None:
                return 'nomem', None
            return self.fetch(data, pc)
        (st, ins), exc = guarded(go)
        if exc:
            st = exc
        mn = ''
        if st == 'ok':
            mn = str(ins.mnemonic)
            if self.style == 2:
                _, exc = guarded(self.cpu.execute, [ins])
            else:
                _, exc = guarded(ins.execute, self.cpu)
        after, image2, diffs = self.diff(before, image)
        self.w.add(['P', st, mn, exc] + diffs)
        return st, after, image2

    def diff(self, before, image):
        after = self.dump()
        image2 = self.image()
        rdiff = [[i] + limbs(v) for i, v in enumerate(after) if v != before[i]]
        mdiff = []
        for (a, n), x, y in zip(self.regions, image, image2):
            if x != y:
                mdiff += [limbs(a + i) + [y[i]] for i in range(n) if x[i] != y[i]]
        return after, image2, [rdiff, mdiff]

    def batch(self, before, image, a, n):
        """the n instructions at address a, decoded first and then executed together"""
        code = []
        for _ in range(n):
            data, exc = guarded(self.d.read_memory_block, a, 4)
            if exc or data is None or len(data) < 2:
                break
            st, ins = outcome(data, a)
            if st != 'ok':
                break
            h = list(bytearray(data)) + [0, 0]
            code.append((ins, [h[0] | h[1] << 8, h[2] | h[3] << 8]))
            a = (a + ins.size) & 0xffffffff
        if code and rng.random() < 0.4:                     # the same object again, or in another order
            for _ in range(rng.randint(1, 3)):
                code.insert(rng.randint(0, len(code)), rng.choice(code))
        _, exc = guarded(self.cpu.execute, rng.choice([list, tuple, iter])([i for i, _ in code]))
        after, image2, diffs = self.diff(before, image)
        self.w.add(['E', [h for _, h in code], exc] + diffs)
        return after, image2


def run():
    global steps
    p = program()
    flash = rng.choice([0, 0, 0x1000, 0x08000000, 0xffff0000, 0x1fff8000 - 1024])
    ram = rng.choice([0x1fff8000, 0x20000000, 0x1fff8000])
    nram = rng.choice([64, 128, 192])
    code, at = p.build(flash)
    data = []
    for h in code:
        data += [h & 255, h >> 8]
    size = max(len(data), 64) + rng.choice([0, 2, 6, 32])
    m = Runner(w, [(flash, size), (ram, nram)], (rng.choice([0, 0, 0, 1]), rng.randrange(2), rng.randrange(2)))
    m.style = rng.randrange(3)
    m.block(flash, data)
    if rng.random() < 0.5:
        m.block(ram, [rng.randrange(256) for _ in range(nram)])
    regs = []
    for i in range(13):
        k = rng.random()
        v = value(rng) if k < 0.4 else ram + rng.randrange(nram) if k < 0.6 else rng.randrange(64) if k < 0.85 \
            else flash + 2 * rng.randrange(len(code))
        if i in (0, 1, 7) and rng.random() < 0.8:
            v = ram + 4 * rng.randrange(nram // 4)
        if i == 6 and rng.random() < 0.8:
            v = rng.randrange(32)
        regs.append([i, v])
    if rng.random() < 0.25:
        regs.append([22, rng.randrange(4)])
    regs.append([13, ram + nram - 4 * rng.randrange(4) if rng.random() < 0.9 else ram + 4 * rng.randrange(6)])
    regs.append([14, flash + 2 * rng.randrange(len(code)) | 1])
    regs.append([16, rng.getrandbits(32)])
    regs.append([15, flash + rng.choice([0, 0, 0, 1])])
    for i, v in regs:
        m.d.write_register(REGNO[i], v)
    w.add(['G', [[i] + limbs(v) for i, v in regs]])
    before, image = m.dump(), m.image()
    for k in range(rng.choice([30, 60, 100])):
        if rng.random() < 0.03:
            a = m.d.read_register(15) & ~1 if rng.random() < 0.5 else flash + 2 * rng.randrange(len(code))
            before, image = m.batch(before, image, a, rng.randrange(9))
            steps += 1
        st, before, image = m.step(before, image)
        steps += 1
        if st != 'ok':
            stops[st] = stops.get(st, 0) + 1
            if rng.random() < 0.7 or k < 3:
                break
            # go on somewhere else
            v = flash + 2 * rng.randrange(len(code))
            m.d.write_register(15, v)
            w.add(['G', [[15] + limbs(v)]])
            before = m.dump()
    w.flush()


while steps < A.scale(24000, 1500000):
    run()
A.done(w, steps=steps, stops=stops)
