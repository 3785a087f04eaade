"""C21: CpuModel over a delegate of independent cells."""
import io
from base import *
from cmdis.model import CpuModel, CpuModelDelegate, CpuMode
from cmdis.bitstring import bitstring

A = Args()
rng = A.rng
w = Writer(A.out)
REGNO = list(range(0, 19)) + [-1, -2, -3, -4, 33] + list(range(0x40, 0x60))
INDEX = dict((n, i) for i, n in enumerate(REGNO))
NAMES = ['r%d' % i for i in range(16)] + ['s%d' % i for i in range(32)] + [
    'sp', 'lr', 'pc', 'xpsr', 'msp', 'psp', 'control', 'faultmask', 'basepri', 'primask', 'fpscr']
RATTR = ['pc', 'lr', 'sp', 'msp', 'psp', 'control', 'xpsr']
WATTR = ['pc', 'lr', 'sp', 'msp', 'psp', 'xpsr']


class Cells(CpuModelDelegate):
    def __init__(self, seed, regs):
        self.seed = seed
        self.regs = dict(zip(REGNO, regs))
        self.mem = {}
        self.calls = []
        self.ints = True
        self.n = 0

    def read_register(self, reg):
        self.n += 1
        if reg not in self.regs:
            raise AttributeError(reg)
        return self.regs[reg]

    def write_register(self, reg, v):
        self.n += 1
        if reg not in self.regs:
            raise AttributeError(reg)
        if type(v) is not int or not 0 <= v < 1 << 32:
            self.ints = False
            v = int(v) & 0xffffffff
        self.regs[reg] = v

    def byte(self, a):
        b = self.mem.get(a)
        if b is None:
            lo, hi = a & 0xffff, a >> 16
            b = (lo * 37 + hi * 101 + (lo >> 8) * 11 + self.seed * 59) % 256
        return b

    def note(self, kind, addr, size):
        self.n += 1
        self.calls.append([kind, limbs(addr) if type(addr) is int and 0 <= addr < 1 << 32 else [-1, -1],
                           size if type(size) is int else -1])

    def read_memory(self, addr, size=32):
        self.note('r', addr, size)
        return sum(self.byte((addr + i) & 0xffffffff) << (8 * i) for i in range(size // 8))

    def write_memory(self, addr, v, size=32):
        self.note('w', addr, size)
        if type(v) is not int:
            raise TypeError('value')
        for i in range(size // 8):
            self.mem[(addr + i) & 0xffffffff] = (v >> (8 * i)) & 255

    def write_memory_block(self, addr, data):
        self.note('wb', addr, len(data))
        for i, b in enumerate(bytearray(data)):
            self.mem[(addr + i) & 0xffffffff] = b

    def read_memory_block(self, addr, length):
        self.note('rb', addr, length)
        return bytearray(self.byte((addr + i) & 0xffffffff) for i in range(length))


def num(x):
    """value and width of a returned bitstring"""
    if not isinstance(x, bitstring):
        return [-1, -1], -1
    got, exc = guarded(lambda: (x.unsigned, x.width))
    if exc or not isinstance(got[0], int) or not 0 <= got[0] < 1 << 32:
        return [-1, -1], -1
    return limbs(got[0]), got[1]


def mixcase(n):
    return rng.choice([n, n.upper(), n.capitalize(), ''.join(rng.choice([c, c.upper()]) for c in n)])


class History(object):
    """one or two delegates and CPU models, of which one pair is current"""
    def __init__(self):
        self.ds, self.cpus = [], []
        for _ in range(rng.choice([1, 1, 2])):
            seed = rng.randrange(256)
            regs = [value(rng) for _ in REGNO]
            self.ds.append(Cells(seed, regs))
            self.cpus.append(CpuModel())
            w.add(['0', seed, [limbs(v) for v in regs]])
        self.pick(len(self.ds) - 1, len(self.ds) - 1)

    def pick(self, i, j):
        self.i = i
        self.d, self.cpu = self.ds[i], self.cpus[j]
        self.cpu.delegate = self.d

    def op(self, fn, *args):
        """runs fn; what it returned and everything the delegates saw of it"""
        d = self.d
        regs, mem = dict(d.regs), dict(d.mem)
        for x in self.ds:
            x.calls, x.ints, x.n = [], True, 0
        got, exc = guarded(fn, *args)
        self.effect = [[[INDEX[n]] + limbs(b) for n, b in d.regs.items() if b != regs[n]],
                       [limbs(k) + [b] for k, b in sorted(d.mem.items()) if mem.get(k) != b],
                       list(d.calls), sum(x.n for x in self.ds if x is not d)]
        return got, exc


def history():
    H = History()
    hot = [rng.choice(REGNO) for _ in range(3)]
    addrs = [value(rng) for _ in range(3)]

    def which():
        k = rng.random()
        if k < 0.35:
            return 'name', mixcase(rng.choice(NAMES))
        if k < 0.5:
            return 'num', rng.choice(REGNO + hot)
        if k < 0.6:
            return 'r', rng.randrange(16)
        if k < 0.7:
            return 's', rng.randrange(32)
        if k < 0.8:
            return 'attr', rng.choice(RATTR)
        return 'flag', rng.choice('nzcv')

    def dumped():
        saved = sys.stdout
        sys.stdout = io.StringIO()
        try:
            H.cpu.dump()
            return sys.stdout.getvalue().split('\n')
        finally:
            sys.stdout = saved

    def getter(how, arg):
        cpu = H.cpu
        return {'name': lambda: cpu.read_register(arg), 'num': lambda: cpu.read_register(arg),
                'r': lambda: cpu.r[arg], 's': lambda: cpu.s[arg], 'attr': lambda: getattr(cpu, arg),
                'flag': lambda: getattr(cpu.apsr, arg), 'ipsr': lambda: cpu.ipsr,
                'pc4': lambda: cpu.pc_for_instr}[how]

    def setter(how, arg, v):
        cpu = H.cpu
        return {'name': lambda: cpu.write_register(arg, v), 'num': lambda: cpu.write_register(arg, v),
                'r': lambda: cpu.r.__setitem__(arg, v), 's': lambda: cpu.s.__setitem__(arg, v),
                'attr': lambda: setattr(cpu, arg, v), 'flag': lambda: setattr(cpu.apsr, arg, v)}[how]

    def address():
        a = (rng.choice(addrs) + rng.randint(-4, 4)) & 0xffffffff if rng.random() < 0.7 else value(rng)
        return a, (bitstring(a, 32) if rng.random() < 0.4 else a)

    for _ in range(60):
        cpu = H.cpu
        k = rng.random()
        if k < 0.01:                                        # the mode is no register
            cpu.mode = rng.choice([CpuMode.Thread, CpuMode.Handler])
            continue
        if k < 0.05 and len(H.ds) > 1:
            H.pick(rng.randrange(2), rng.randrange(2))
            w.add(['M', H.i + 1])
        elif k < 0.3:
            how, arg = which() if rng.random() < 0.9 else (rng.choice(['ipsr', 'pc4']), '')
            x, exc = H.op(getter(how, arg))
            v, width = num(x) if exc == '' else ([-1, -1], -1)
            w.add(['G', how, arg, exc, v, width] + H.effect)
            if isinstance(x, bitstring) and rng.random() < 0.3:
                # what was read is the reader's own
                guarded(lambda: x.__setitem__(0, 1 - x[0].unsigned))
        elif k < 0.33:
            if cpu.mode is not CpuMode.Thread:
                continue
            x, exc = H.op(lambda: cpu.is_privileged)
            w.add(['Q', exc or ('?' if type(x) is not bool else ''), int(x is True)] + H.effect)
        elif k < 0.62:
            how, arg = which()
            if how == 'attr':
                arg = rng.choice(WATTR)
            if how == 'flag':
                v = rng.randrange(2)
                x = bitstring(v, 1) if rng.random() < 0.4 else v
                if rng.random() < 0.3:                      # only one bit of anything wider counts
                    v = rng.choice([2, 3, 4, 5, 7, 8, 255, 256, 0x10, rng.getrandbits(32)])
                    x = bitstring(v, rng.choice([8, 16, 32])) if rng.random() < 0.6 else v
                    v = x.unsigned if isinstance(x, bitstring) else v
            else:
                v = value(rng)
                m = rng.random()
                if m < 0.3:
                    wd = rng.choice([8, 16, 32, 40, 64, 33, rng.randint(1, 64)])
                    v = (rng.getrandbits(wd) if wd > 32 or rng.random() < 0.5 else v & ((1 << wd) - 1))
                    x = bitstring(v, wd)
                elif m < 0.45:
                    v = v | rng.getrandbits(10) << 32
                    x = v
                elif m < 0.6:
                    v = v - (1 << 32)
                    x = v
                else:
                    x = v
            _, exc = H.op(setter(how, arg, x))
            w.add(['P', how, arg, limbs(v & 0xffffffff), exc] + H.effect + [H.d.ints])
        elif k < 0.65:
            how = rng.choice('rs')
            i = rng.choice([16, 17, 31, 100, -1, -2, -16, -50]) if how == 'r' else rng.choice([32, 33, 64, -1, -32, -63, -64])
            _, exc = H.op(getter(how, i) if rng.random() < 0.5 else setter(how, i, 5))
            w.add(['H', how, i, exc] + H.effect)
        elif k < 0.655:
            x, exc = H.op(dumped)
            w.add(['U', exc, x or []] + H.effect)
        elif k < 0.665:
            x, exc = H.op(lambda: ''.join(c if ' ' <= c <= '~' else '?' for c in repr(H.cpu)))
            x = x or ''
            w.add(['V', exc, x[x.find('pc='):] if 'pc=' in x else x] + H.effect)
        elif k < 0.675:
            H.cpu.delegate = None
            q = rng.randrange(6)
            x, exc = H.op([lambda: cpu.read_register(rng.choice(NAMES)), lambda: cpu.write_register(rng.choice(NAMES), 1),
                           lambda: cpu.read_memory(0, 8), lambda: cpu.write_memory(0, 1), lambda: cpu.read_memory_block(0, 4),
                           lambda: cpu.write_memory_block(0, bytearray(4))][q])
            H.cpu.delegate = H.d
            w.add(['Z', exc or ('' if x is None else 'value')] + H.effect)
        else:
            a, x = address()
            size = rng.choice([8, 16, 32])
            if k < 0.8:
                v, exc = H.op(lambda: cpu.read_memory(x, size)) if rng.random() < 0.5 else \
                    H.op(getattr(cpu, 'read%d' % size), x)
                val, width = num(v) if exc == '' else ([-1, -1], -1)
                w.add(['L', limbs(a), size // 8, exc, val, width] + H.effect)
            elif k < 0.93:
                v = value(rng) & ((1 << size) - 1)
                if rng.random() < 0.3:                      # a value narrower than the access
                    wd = rng.choice([8, 16, rng.randint(1, 32)])
                    v = (v | rng.randrange(2) << (wd - 1)) & ((1 << min(wd, size)) - 1)
                    y = bitstring(v, wd)
                else:
                    y = bitstring(v, rng.choice([size, 32])) if rng.random() < 0.5 else v
                _, exc = H.op(cpu.write_memory, x, y, size) if rng.random() < 0.5 else \
                    H.op(getattr(cpu, 'write%d' % size), x, y)
                w.add(['S', limbs(a), [(v >> (8 * i)) & 255 for i in range(size // 8)], size, exc] + H.effect)
            elif k < 0.96:
                bs = [rng.randrange(256) for _ in range(rng.randrange(7))]
                _, exc = H.op(cpu.write_memory_block, a, rng.choice([list, bytearray])(bs))
                w.add(['S', limbs(a), bs, 0, exc] + H.effect)
            else:
                n = rng.randrange(9)
                b, exc = H.op(cpu.read_memory_block, a, n)
                bs, e2 = guarded(lambda: [int(q) for q in bytearray(b)])
                w.add(['B', limbs(a), n, exc or e2, bs or []] + H.effect)
    w.flush()


for _ in range(A.scale(640, 40000)):
    history()
A.done(w)
