"""C19: memory of the mock CPU.  C20: its register file."""
from base import *
from cmdis.mock_cpu import MockCpuModelDelegate

A = Args()
rng = A.rng
w = Writer(A.out)
REGNO = list(range(0, 19)) + [-1, -2, -3, -4, 33] + list(range(0x40, 0x60))
cnt = {}


def num(v):
    """what a read returned, as a number (anything else: an impossible value)"""
    return limbs(v) if isinstance(v, int) and not isinstance(v, bool) and 0 <= v < 1 << 32 else [-1, -1]


def dump(d):
    return [num(guarded(d.read_register, n)[0]) for n in REGNO]


def regs():
    d = MockCpuModelDelegate()
    last = dump(d)
    w.add(['0', last])
    focus = rng.choice([[13, 17, 18, 22], [13, 17, 18, 22, 19, 20, 21], list(range(23)), list(range(56))])
    for _ in range(60):
        i = rng.choice(focus)
        if rng.random() < 0.75:
            v = value(rng) if i != 22 or rng.random() < 0.3 else rng.randrange(8)
            _, exc = guarded(d.write_register, REGNO[i], v)
            now = dump(d)
            w.add(['W', i, limbs(v), exc, [[j] + now[j] for j in range(56) if now[j] != last[j]]])
            last = now
        else:
            w.add(['V', i, num(guarded(d.read_register, REGNO[i])[0])])
    w.flush()


def mem():
    d = MockCpuModelDelegate()
    w.add(['0', dump(d)])
    n = rng.choice([0, 1, 1, 2, 2, 3, 4])
    regions = []
    interesting = [0, 0xffffffff, 0x1000]
    large = rng.random() < 0.04

    def add():
        if regions and rng.random() < 0.6:          # adjacent to, or overlapping, another one
            s, l = rng.choice(regions)
            start = min(0xffffffff, max(0, s + rng.choice([l, l, l + 1, -3, -1, l - 1, 0, l // 2])))
        else:
            start = rng.choice([0, 4, 0x100, 0x1fff8000, 0x20000000, 0xfffffff0, 0x7ffffff9, 0xffc, 0x1fffe, 0x20000ff8,
                                rng.getrandbits(31)])
        length = rng.choice([1, 2, 3, 4, 5, 7, 8, 16, 33, 64]) if not large else rng.choice([64, 300, 513, 600])
        length = min(length, (1 << 32) - start)
        guarded(d.add_memory, start, length)
        w.add(['A', limbs(start), length])
        regions.append((start, length))
        interesting.extend([start, start + length - 1, start + length, start + length - 2, start + length - 3, max(0, start - 1)])

    def addr():
        if regions and rng.random() < 0.6:
            s, l = rng.choice(regions)
            a = s + rng.randrange(l)
        else:
            a = rng.choice(interesting) + rng.randint(-2, 2)
        return min(max(a, 0), 0xffffffff)
    for _ in range(n):
        add()
    for _ in range(50):
        k = rng.random()
        a = addr()
        if k < 0.3:
            size = rng.choice([8, 16, 32])
            v = value(rng) & ((1 << size) - 1) if rng.random() < 0.85 else 0
            if rng.random() < 0.7:
                _, exc = guarded(d.write_memory, a, v, size)
            else:
                size = 32
                v = value(rng)
                _, exc = guarded(d.write_memory, a, v)
            w.add(['S', limbs(a), [(v >> (8 * i)) & 255 for i in range(size // 8)], exc])
        elif k < 0.45:
            bs = [rng.randrange(256) for _ in range(rng.choice([0, 1, 2, 3, 4, 5, 8, 20, 70]) if not large else
                                                        rng.choice([16, 255, 256, 257, 300, 512, 520, 650]))]
            data = rng.choice([list, bytearray, lambda b: bytes(bytearray(b))])(bs)
            _, exc = guarded(d.write_memory_block, a, data)
            w.add(['S', limbs(a), bs, exc])
            if not isinstance(data, bytes):                                    # so is what was passed
                for i in range(len(data)):
                    data[i] ^= 0xff
        elif k < 0.48:
            add()
        elif k < 0.8:
            size = rng.choice([8, 16, 32])
            v, exc = guarded(d.read_memory, a, size)
            w.add(['L', limbs(a), size // 8, exc, num(v)])
        else:
            if regions and rng.random() < 0.5:      # the whole region and more
                s, l = rng.choice(regions)
                a, length = s, l + rng.choice([0, 0, 0, 0, 3, -1])
            else:
                length = rng.choice([0, 1, 2, 3, 4, 5, 9, 40, 100]) if not large else rng.choice([100, 255, 256, 257, 500, 700])
            b, exc = guarded(d.read_memory_block, a, length)
            bs, e2 = guarded(lambda: [int(x) for x in bytearray(b)]) if b is not None else ([], 'none')
            w.add(['B', limbs(a), length, exc or e2, bs if bs is not None else []])
            if isinstance(b, (bytearray, list)) and rng.random() < 0.5:       # what was returned is the caller's
                for i in range(len(b)):
                    b[i] ^= 0xff
    w.flush()


for _ in range(A.scale(*((640, 40000) if A.prop == 'C20' else (800, 40000)))):
    (regs if A.prop == 'C20' else mem)()
A.done(w)
