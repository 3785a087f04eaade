"""C28: the conversion utilities."""
import math
from base import *
import cmdis.utilities as u

A = Args()
rng = A.rng
w = Writer(A.out)
kinds = {}


def bits(v):
    if type(v) is not int or v < 0:
        return ['?', str(v)]
    r = []
    while v:
        r.append(v & 1)
        v >>= 1
    return r


def byte():
    return rng.choice([0, 0, 1, 0x7f, 0x80, 0xff, 0xff, rng.randrange(256), rng.randrange(256)])


def half():
    return byte() | byte() << 8


def word():
    return half() | half() << 16


def seq(vals, shapes=(list, tuple, bytearray)):
    return rng.choice(shapes)(vals)


def word_out(v):
    return limbs(v) if type(v) is int and 0 <= v < 1 << 32 else ['?', str(v)]


def small_out(v):
    return v if type(v) is int and 0 <= v < 1 << 31 else ['?', str(v)]


def seq_out(r, f=small_out):
    return [f(x) for x in r] if isinstance(r, (list, tuple, bytearray, bytes)) else ['?', type(r).__name__]


def float_out(x):
    if type(x) is not float:
        return ['?', type(x).__name__]
    s = 1 if math.copysign(1, x) < 0 else 0
    if x != x:
        return ['nan']
    if math.isinf(x):
        return ['inf', s]
    if x == 0:
        return ['zero', s]
    m, e = math.frexp(abs(x))
    m *= 1 << 24
    return ['num', s, int(m), e] if m == int(m) else ['?', repr(x)]


def call(name, args, shown, out, fn, back=None):
    kinds[name] = kinds.get(name, 0) + 1
    got, exc = guarded(fn, *args)
    res, e2 = guarded(out, got) if not exc else ([], '')
    w.add([name, shown, exc or e2, res, shown if back is None else back()])


def big():
    k = rng.random()
    if k < 0.1:
        return 0
    n = rng.choice([1, 3, 8, 16, 31, 32, 32, 32, 33, 64, 70, 88, 100, 130, 200]) if k < 0.97 else rng.choice([256, 300, 520])
    v = rng.getrandbits(n)
    return rng.choice([v, v, (1 << n) - 1, 1 << (n - 1), v | 1, v & ~1])


def one():
    k = rng.choice(['rd', 'rd', 'wr', 'wr', 'list', 'list', 'list', 'float', 'float', 'round', 'weight', 'wmask', 'bitmask', 'bitmask',
                    'inv', 'bfx', 'bfx', 'bfi', 'bfi', 'bfi'])
    if k == 'rd':
        n = rng.choice([2, 4])
        off = rng.choice([0, 0, 1, 2, 3, rng.randrange(9)]) if rng.random() < 0.97 else rng.choice([100, 255, 256, 300])
        d = seq([byte() for _ in range(off + n + rng.choice([0, 0, 1, 5]))])
        f = u.bytes_to_le16 if n == 2 else u.bytes_to_le32
        args = [d] if off == 0 and rng.random() < 0.7 else [d, off]
        kw = rng.random() < 0.4 and len(args) == 2
        call(f.__name__, args, [list(d), off], small_out if n == 2 else word_out,
             (lambda d, o: f(d, offset=o)) if kw else f, lambda: [list(d), off])
    elif k == 'wr':
        if rng.random() < 0.5:
            v = half()
            call('le16_to_bytes', [v], [v], seq_out, u.le16_to_bytes)
        else:
            v = word()
            call('le32_to_bytes', [v], [limbs(v)], seq_out, u.le32_to_bytes)
    elif k == 'list':
        n = rng.choice([0, 1, 2, 3, 4, 5, 8, 17]) if rng.random() < 0.97 else rng.choice([64, 65, 100, 255, 257, 300, 600]) if rng.random() < 0.97 else rng.choice([2049, 4097, 8200])
        q = rng.randrange(4)
        if q == 0:
            d = seq([byte() for _ in range(4 * n + rng.choice([0, 0, 0, 1, 2, 3]))])   # an incomplete last word is left out
            call('byteListToU32leList', [d], [list(d)], lambda r: seq_out(r, word_out), u.byteListToU32leList, lambda: [list(d)])
        elif q == 1:
            d = seq([byte() for _ in range(2 * n)])
            call('byteListToU16leList', [d], [list(d)], seq_out, u.byteListToU16leList, lambda: [list(d)])
        elif q == 2:
            d = seq([word() for _ in range(n)], (list, tuple))
            call('u32leListToByteList', [d], [[limbs(x) for x in d]], seq_out, u.u32leListToByteList, lambda: [[limbs(x) for x in d]])
        else:
            d = seq([half() for _ in range(n)], (list, tuple))
            call('u16leListToByteList', [d], [list(d)], seq_out, u.u16leListToByteList, lambda: [list(d)])
    elif k in ('float', 'round'):
        q = rng.random()
        e = rng.choice([0, 0, 1, 2, 126, 127, 128, 254, 255, rng.randrange(256)])
        f = rng.choice([0, 1, 0x7fffff, 0x400000, rng.getrandbits(23), rng.getrandbits(23), 1 << rng.randrange(23)])
        v = rng.randrange(2) << 31 | e << 23 | f if q < 0.8 else rng.getrandbits(32)
        p = [(v >> i) & 1 for i in range(32)]
        if k == 'float':
            call('u32BEToFloat32BE', [v], [p], float_out, u.u32BEToFloat32BE)
        else:
            nan = (v >> 23) & 255 == 255 and v & 0x7fffff
            call('roundtrip', [v], [p], (lambda r: []) if nan else bits, lambda v: u.float32beToU32be(u.u32BEToFloat32BE(v)))
    elif k == 'weight':
        v = big()
        call('hamming_weight', [v], [bits(v)], small_out, u.hamming_weight)
    elif k == 'wmask':
        n = rng.choice([0, 1, 2, 8, 31, 32, 33, 64, 100, rng.randrange(70), rng.randrange(300)])
        call('wmask', [n], [n], bits, u.wmask)
    elif k == 'bitmask':
        args, shown = [], []
        for _ in range(rng.choice([0, 1, 1, 2, 3, 5])):
            q = rng.randrange(3)
            if q == 0:
                lo = rng.choice([0, 0, 1, rng.randrange(32), rng.randrange(64)])
                hi = lo + rng.choice([0, 0, 1, 7, rng.randrange(33)])
                args.append((hi, lo))
                shown.append(['range', hi, lo])
            elif q == 1:
                l = [rng.choice([0, 31, rng.randrange(40)]) for _ in range(rng.randrange(5) if rng.random() < 0.95 else rng.randrange(5, 40))]
                args.append(list(l))
                shown.append(['list', l])
            else:
                b = rng.choice([0, 1, 31, 32, rng.randrange(70)])
                args.append(b)
                shown.append(['bit', b])

        def back():
            return [s if s[0] != 'list' else ['list', list(a)] for s, a in zip(shown, args)]
        call('bitmask', args, shown, bits, u.bitmask, back)
    elif k == 'inv':
        v = word()
        call('invert32', [v], [bits(v)], bits, u.invert32)
    else:
        v = big()
        lo = rng.choice([0, 0, 1, rng.randrange(32), rng.randrange(40), rng.randrange(120)])
        hi = lo + rng.choice([0, 0, 1, 3, 7, rng.randrange(33)])
        single = hi == lo and rng.random() < 0.7
        tail = [hi] if single else [hi, lo]
        kw = rng.random() < 0.3
        if k == 'bfx':
            call('bfx', [v] + tail, [bits(v)] + tail, bits, (lambda v, m, l=None: u.bfx(v, msb=m, lsb=l)) if kw else u.bfx)
        else:
            n = hi - lo + 1
            f = rng.choice([rng.getrandbits(n), (1 << n) - 1, 0, 1, big()])
            call('bfi', [v, f] + tail, [bits(v), bits(f)] + tail, bits,
                 (lambda v, f, m, l=None: u.bfi(v, f, msb=m, lsb=l)) if kw else u.bfi)


while w.events < A.scale(80000, 4000000):
    for _ in range(50):
        one()
    w.flush()
A.done(w, kinds=kinds)
