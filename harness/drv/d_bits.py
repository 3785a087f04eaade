"""C14..C18: histories of operations on bitstring objects and the pseudo-code primitives."""
import operator
from base import *
from cmdis.bitstring import bitstring, bit0, bit1, zeros, ones
import cmdis.helpers as hp

A = Args()
rng = A.rng
w = Writer(A.out)
BIN = {'add': operator.add, 'sub': operator.sub, 'mul': operator.mul, 'floordiv': operator.floordiv,
       'and': operator.and_, 'or': operator.or_, 'xor': operator.xor, 'lsh': operator.lshift, 'rsh': operator.rshift,
       'mod': operator.mod}
IBIN = {'add': operator.iadd, 'sub': operator.isub, 'mul': operator.imul, 'floordiv': operator.ifloordiv,
        'and': operator.iand, 'or': operator.ior, 'xor': operator.ixor, 'lsh': operator.ilshift, 'rsh': operator.irshift,
        'mod': operator.imod}
CMP = {'lt': operator.lt, 'le': operator.le, 'gt': operator.gt, 'ge': operator.ge, 'eq': operator.eq, 'ne': operator.ne}
kinds = {}
UNUSUAL = [-1]


def bits(v, n):
    return [(v >> i) & 1 for i in range(n)]


def dump(b):
    """value as bits; [-1] if the object is inconsistent"""
    def go():
        n, v = b.width, b.unsigned
        if type(n) is not int or not 0 <= n < 5000 or not isinstance(v, int) or v < 0 or v >> n or b.mask != (1 << n) - 1 \
                or b.value != v:
            return UNUSUAL
        return bits(v, n)
    got, exc = guarded(go)
    return UNUSUAL if exc else got


def canon(n):
    s = 1 if n < 0 else 0
    b = []
    while n not in (0, -1):
        b.append(n & 1)
        n >>= 1
    return ['n', s, b]


def width():
    k = rng.random()
    if k < 0.08:
        return 0
    if k < 0.6:
        return rng.randint(1, 9)
    if k < 0.85:
        return rng.choice([8, 12, 15, 16, 17, 24, 31, 32, 33])
    if k < 0.99:
        return rng.choice([32, 40, 48, 63, 64, 65, 66, 80, 100])
    return rng.choice([128, 129, 200, 256, 257, 300])


def val(n):
    if n == 0:
        return 0
    k = rng.random()
    m = (1 << n) - 1
    if k < 0.12:
        return 0
    if k < 0.22:
        return m
    if k < 0.3:
        return 1 << (n - 1)
    if k < 0.4:
        return (1 << rng.randrange(n)) & m
    if k < 0.5:
        return (m >> rng.randrange(n)) & m
    if k < 0.56:
        return rng.randint(0, min(m, 4))
    return rng.getrandbits(n)


def integer():
    k = rng.random()
    if k < 0.3:
        return rng.randint(-5, 9)
    if k < 0.6:
        return val(rng.choice([3, 4, 8, 31, 32, 33]))
    if k < 0.75:
        return -val(rng.choice([3, 8, 16, 32, 33])) - 1
    if k < 0.88:
        n = rng.randint(1, 70)
        v = 1 << (n - 1) | rng.getrandbits(n - 1) if n > 1 else 1
        return rng.choice([v, v, -v])
    return rng.choice([1 << 32, (1 << 32) - 1, (1 << 32) + 1, 1 << 64, (1 << 64) - 1, -(1 << 31), -(1 << 32), 1 << 31,
                       (1 << 65) + 3, rng.getrandbits(63)])


class Other(object):
    pass


class History(object):
    def __init__(self):
        self.obj = {}
        self.last = {}
        self.top = 0
        for b in (bit0, bit1):
            self.keep(b)
        for _ in range(rng.randint(3, 6)):
            self.keep(self.fresh())
        w.add(['init', [[i, self.last[i]] for i in sorted(self.obj)]])

    def fresh(self):
        n = width()
        return bitstring(val(n), n)

    def keep(self, b):
        self.top += 1
        self.obj[self.top] = b
        self.last[self.top] = dump(b)
        return self.top

    # --------------------------------------------------------------- operands
    def o(self, cond=lambda b: True, consts=True):
        ids = [i for i in self.obj if (consts or i > 2) and self.last[i] != UNUSUAL and cond(self.obj[i])]
        if not ids:
            b = self.fresh()
            while not cond(b):
                b = self.fresh()
            # told to the specification as an initial object
            i = self.keep(b)
            w.add(['init', [[i, self.last[i]]]])
            return i
        return rng.choice(ids)

    def text(self):
        n = max(1, width()) if rng.random() < 0.95 else 0
        v = val(n)
        return ['t', bits(v, n)], ''.join(str(x) for x in reversed(bits(v, n)))

    def num(self, n=None):
        n = integer() if n is None else n
        return canon(n), n

    def ref(self, i):
        return ['o', i], self.obj[i]

    def small(self, n):
        return ['k', n], n

    # ----------------------------------------------------------------- events
    def do(self, kind, sub, args, fn, keep=0.25):
        """args: list of (description, value)"""
        kinds[kind + ' ' + sub] = kinds.get(kind + ' ' + sub, 0) + 1
        got, exc = guarded(fn, *[a[1] for a in args])
        before = set(self.obj)
        res = []
        if not exc:
            res = self.result(got, rng.random() < keep)
        diffs = []
        for i in before:
            d = dump(self.obj[i])
            if d != self.last[i]:
                self.last[i] = d
                diffs.append([i, d])
        w.add([kind, sub, [a[0] for a in args], exc, res, diffs])

    def result(self, r, keep):
        if isinstance(r, bitstring):
            for i, b in self.obj.items():
                if b is r:
                    return ['same', i]
            d = dump(r)
            if keep:
                return ['o', self.keep(r), d]
            self.top += 1
            return ['o', self.top, d]
        if r is None:
            return ['-']
        if type(r) is bool:
            return ['B', int(r)]
        if isinstance(r, (tuple,)) and len(r) == 3 and r[0] == '#':
            return list(r[1:])
        if isinstance(r, int):
            return canon(r)
        if isinstance(r, str):
            return ['s', r]
        if isinstance(r, bytearray):
            out = ['y', list(r)]
            for i in range(len(r)):                  # the caller may do what it likes with it
                r[i] ^= 0xff
            return out
        if isinstance(r, list):
            out = ['l', [x if type(x) is int else -1 for x in r]]
            r[:] = [1 - x if type(x) is int else x for x in r] + [1]
            return out
        return ['?', type(r).__name__]


def small(r):
    return ('#', 'k', r if type(r) is int else repr(r))


def narrow(b):
    return b.width <= 40


def foreign(H, i, inplace=True):
    """an operand that operators do not take"""
    x = rng.choice([None, Other(), 2.5, {}, set([1])])
    args = [H.ref(i), (['x'], x)]
    return args if inplace or x is None or rng.random() < 0.6 else args[::-1]


def op_bin(H):
    op = rng.choice(['add', 'sub', 'mul', 'floordiv', 'and', 'or', 'xor', 'lsh', 'rsh', 'add', 'sub', 'or', 'xor'])
    inplace = rng.random() < 0.4
    slow = narrow if op in ('mul', 'floordiv') else lambda b: True
    if op in ('lsh', 'rsh'):
        i = H.o(consts=not inplace)
        n = rng.choice([0, 1, 2, 3, rng.randrange(H.obj[i].width + 3), H.obj[i].width, 31, 32, 33, 64, 100, 256, 299]) if rng.random() < 0.96 else \
            rng.choice([511, 512, 1000, 1023, 1024, 1025, 4095, 4097, 65536])
        args = [H.ref(i), H.small(n)]
    else:
        k = rng.random()
        i = H.o(slow, consts=not inplace)
        if k < 0.4:
            j = i if rng.random() < 0.15 else H.o(slow)
            args = [H.ref(i), H.ref(j)]
        elif k < 0.7:
            args = [H.ref(i), H.num()]
        elif k < 0.82 or inplace:
            args = [H.ref(i), H.text()]
        elif k < 0.95:
            args = [H.num(), H.ref(i)]
        else:
            args = [H.text(), H.ref(i)]
    if rng.random() < 0.03:
        args = foreign(H, i, inplace)
    H.do('ibin' if inplace else 'bin', op, args, (IBIN if inplace else BIN)[op])


def op_mod(H):
    inplace = rng.random() < 0.4
    i = H.o(lambda b: b.width < 90, consts=not inplace)
    k = rng.random()
    if k < 0.5:
        j = i if rng.random() < 0.2 else H.o(lambda b: b.width < 90)
        r = H.ref(j)
    elif k < 0.7:
        r = H.text()
    elif k < 0.8:
        r = H.num(rng.randrange(2))
    else:
        l = [rng.randrange(2) for _ in range(rng.randint(0, 6))]
        r = (['l', l], list(l) if rng.random() < 0.7 else tuple(l))
    if rng.random() < 0.06:
        args = [H.ref(i), H.num()] if rng.random() < 0.5 else foreign(H, i, inplace)
        H.do('ibin' if inplace else 'bin', 'mod', args, (IBIN if inplace else BIN)['mod'])
    elif not inplace and rng.random() < 0.1:
        H.do('bin', 'mod', [H.num(), H.ref(i)], operator.mod)
    else:
        H.do('ibin' if inplace else 'bin', 'mod', [H.ref(i), r], (IBIN if inplace else BIN)['mod'])


def op_new(H):
    k = rng.random()
    wd = None if rng.random() < 0.5 else width()
    W = (['-'], None) if wd is None else (['k', wd], wd)
    if k < 0.2:
        a = H.ref(H.o())
    elif k < 0.4:
        a = H.num()
    elif k < 0.6:
        a = H.text()
    elif k < 0.75:
        l = [rng.randrange(2) for _ in range(rng.choice([0, 1, 3, 8, 20, 33]) if rng.random() < 0.95 else rng.choice([64, 65, 129, 260]))]
        a = (['l', l], list(l) if rng.random() < 0.6 else tuple(l))
    elif k < 0.9:
        y = [rng.randrange(256) for _ in range(rng.choice([0, 1, 2, 3, 4, 8, 9]) if rng.random() < 0.95 else rng.choice([16, 17, 20, 32, 33]))]
        a = (['y', y], bytearray(y))
    elif k < 0.94:
        a = (['-'], None)
    elif k < 0.95:
        a = (['x'], rng.choice([Other(), 2.5, {}]))
    else:
        n = rng.choice([0, 1, 2, 5, 32, 40])
        z = rng.random() < 0.5
        H.do('zeros' if z else 'ones', '', [(['k', n], n)], zeros if z else ones, keep=0.5)
        return

    def make(v, wd):
        b = bitstring(v) if wd is None else bitstring(v, wd)
        if isinstance(v, (list, bytearray)):           # the source may change afterwards
            for i in range(len(v)):
                v[i] ^= 1
        return b
    H.do('new', '', [a, W], make, keep=0.5)


def opt(n):
    """an argument of a slice"""
    if rng.random() < 0.2:
        return ['-'], None
    v = rng.randint(-n - 2, n + 2)
    return ['k', v], v


def op_un(H):
    k = rng.random()
    i = H.o()
    b = H.obj[i]
    if k < 0.3:
        sub = rng.choice(['invert', 'inverted', 'reversed', 'iszerobit', 'isonesbit'])
        H.do('un', sub, [H.ref(i)], {'invert': operator.invert, 'inverted': lambda x: x.inverted,
                                     'reversed': lambda x: x.reversed, 'iszerobit': lambda x: x.is_zero_bit(),
                                     'isonesbit': lambda x: x.is_ones_bit()}[sub])
    elif k < 0.5:
        i = H.o(lambda b: b.width >= 1)
        b = H.obj[i]
        n = b.width + rng.choice([0, 0, 1, 2, 3, 8, 24, 32, 61, 65, 100]) if rng.random() < 0.93 else rng.randrange(b.width)
        sub = rng.choice(['sext', 'zext'])
        H.do('un', sub, [H.ref(i), H.small(n)], (lambda x, n: x.sign_extend(n)) if sub == 'sext' else
             (lambda x, n: x.zero_extend(n)))
    elif k < 0.7:
        if b.width == 0 or rng.random() < 0.2:
            n = b.width + rng.randrange(4)
        else:
            n = rng.randint(-b.width, b.width - 1)
        if rng.random() < 0.06:
            H.do('un', 'bit', [H.ref(i), (['x'], rng.choice([None, 1.5, '1', Other()]))], lambda x, n: x[n])
            return
        H.do('un', 'bit', [H.ref(i), H.small(n)], (lambda x, n: x[n]) if rng.random() < 0.6 else (lambda x, n: x.get_bit(n)))
    else:
        n = b.width
        s = rng.choice([None, None, 1, 1, -1, 2, 3, -2, -3, 7])
        S = (['-'], None) if s is None else (['k', s], s)
        H.do('un', 'slice', [H.ref(i), opt(n), opt(n), S], lambda x, a, c, s: x[a:c:s] if s is not None or rng.random() < 0.5
             else x[a:c])


def op_put(H):
    k = rng.random()
    if k < 0.15:
        i = H.o(consts=False)
        sub = rng.choice(['invert', 'reverse'])
        H.do('iun', sub, [H.ref(i)], (lambda x: x.invert()) if sub == 'invert' else (lambda x: x.reverse()))
    elif k < 0.3:
        i = H.o(consts=False)
        H.do('put', 'value', [H.ref(i), H.num()], lambda x, v: setattr(x, 'value', v))
    elif k < 0.42:
        i = H.o(consts=False)
        n = width()
        H.do('put', 'width', [H.ref(i), H.small(n)], lambda x, v: setattr(x, 'width', v))
    elif k < 0.55:
        i = H.o(consts=False)
        r = H.ref(i if rng.random() < 0.15 else H.o()) if rng.random() < 0.9 else (['x'], Other())
        H.do('put', 'set', [H.ref(i), r], lambda x, v: x.set(v))
    elif k < 0.75:
        i = H.o(lambda b: b.width > 0 or rng.random() < 0.3, consts=False)
        n = H.obj[i].width
        p = rng.randint(-n, n - 1) if rng.random() < 0.92 and n else n + rng.randrange(3)
        v = H.num() if rng.random() < 0.3 else H.num(rng.randrange(2)) if rng.random() < 0.5 else \
            H.ref(H.o(lambda b: b.width == 1) if rng.random() < 0.9 else H.o())
        P_ = H.small(p)
        if rng.random() < 0.06:
            if rng.random() < 0.5 or p >= n:
                P_ = ['x'], rng.choice([None, 1.5, '1', Other()])
            else:
                v = ['x'], rng.choice([None, '1', 1.0, [1]])
        H.do('put', 'bit', [H.ref(i), P_, v], lambda x, p, v: x.__setitem__(p, v))
    else:
        i = H.o(consts=False)
        n = H.obj[i].width
        for _ in range(50):
            a, c = opt(n), opt(n)
            f, t, _s = slice(a[1], c[1], None).indices(n)
            if f <= t:
                break
        else:
            return
        q = rng.random()
        v = H.ref(i if rng.random() < 0.2 else H.o()) if q < 0.5 else H.text() if q < 0.75 else \
            H.num(val(rng.choice([1, 3, 8, 32, 33, 64])))
        if rng.random() < 0.05:
            v = ['x'], rng.choice([None, [1, 0], 1.0, Other()])
        if rng.random() < 0.07 and v[0] != ['x']:
            s = rng.choice([1, 2, -1, 3])
            H.do('put', 'slice', [H.ref(i), a, c, v, H.small(s)], lambda x, a, c, v, s: x.__setitem__(slice(a, c, s), v))
            return
        H.do('put', 'slice', [H.ref(i), a, c, v], lambda x, a, c, v: x.__setitem__(slice(a, c), v))


GET = {'value': lambda x: x.value, 'unsigned': lambda x: x.unsigned, 'int': lambda x: int(x), 'index': lambda x: operator.index(x),
       'mask': lambda x: x.mask, 'signed': lambda x: x.signed, 'len': lambda x: small(len(x)), 'width': lambda x: small(x.width),
       'count': lambda x: small(x.bit_count()), 'lowest': lambda x: small(x.lowest_set_bit()),
       'highest': lambda x: small(x.highest_set_bit()), 'bool': lambda x: bool(x), 'iszero': lambda x: x.is_zero(),
       'isones': lambda x: x.is_ones(), 'list': lambda x: list(x), 'bytes': lambda x: x.bytes,
       'text': lambda x: x.binary_string, 'repr': lambda x: repr(x)}


def op_get(H, subs=None):
    i = H.o()
    k = rng.random()
    if k < 0.08:
        n = rng.randrange(H.obj[i].width + 2)
        H.do('get', 'bitvalue', [H.ref(i), H.small(n)], lambda x, n: small(x.get_bit_value(n)))
    elif k < 0.25:
        i = H.o(narrow)
        n = rng.choice([2, 8, 10, 16, 16, 3])
        plain = n == 16 and rng.random() < 0.5
        H.do('get', 'base', [H.ref(i), H.small(n)], lambda x, n: x.base_string() if plain else x.base_string(n))
    else:
        sub = rng.choice(subs or sorted(GET))
        H.do('get', sub, [H.ref(i)], GET[sub])


def near(H, i):
    """an operand close to an object's value"""
    b = H.obj[i]
    k = rng.random()
    v = b.unsigned
    if k < 0.3:
        n = max(0, b.width + rng.choice([-1, 0, 0, 0, 1]))
        far = 1 << rng.randrange(n) if n and rng.random() < 0.25 else 0
        x = bitstring(((v ^ far) + rng.choice([0, 0, 0, 1, -1])) & ((1 << n) - 1), n)
        j = H.keep(x)
        w.add(['init', [[j, H.last[j]]]])
        return H.ref(j)
    if k < 0.55:
        return H.num(v + rng.choice([0, 0, 1, -1]) - (1 << b.width if rng.random() < 0.5 else 0))
    if k < 0.7 and b.width:
        s = ''.join(str(x) for x in reversed(bits(v, b.width)))
        s = rng.choice([s, s, '0' + s, s[1:] or '0'])
        return ['t', [int(c) for c in reversed(s)]], s
    if k < 0.8:
        return H.num()
    return H.ref(H.o())


def op_cmp(H):
    sub = rng.choice(sorted(CMP))
    i = H.o()
    if rng.random() < 0.1:
        x = (['x'], rng.choice([None, Other(), 2.5, [1, 0], (1,), {}, bytearray(b'\1')]))
        args = [H.ref(i), x] if rng.random() < 0.7 else [x, H.ref(i)]
    else:
        r = near(H, i)
        args = [H.ref(i), r]
        if rng.random() < 0.3:
            args.reverse()
    H.do('cmp', sub, args, CMP[sub])


def op_hash(H):
    i = H.o()
    j = i
    if rng.random() < 0.9:
        b = H.obj[i]
        x = bitstring(b.unsigned, b.width) if rng.random() < 0.7 else bitstring(b)
        j = H.keep(x)
        w.add(['init', [[j, H.last[j]]]])
    m = rng.randrange(3)
    H.do('hash', '', [H.ref(i), H.ref(j)], (lambda x, y: hash(x) == hash(y)) if m == 0 else (lambda x, y: y in {x: 1})
         if m == 1 else (lambda x, y: len(set([x, y])) == 1))


# ------------------------------------------------------------------- primitives
SR = [hp.SRType.SRType_None, hp.SRType.SRType_LSL, hp.SRType.SRType_LSR, hp.SRType.SRType_ASR, hp.SRType.SRType_ROR,
      hp.SRType.SRType_RRX]


class Tup(list):
    pass


def vals(*rs):
    return ('#', 'T', [dump(r) if isinstance(r, bitstring) else UNUSUAL for r in rs])


def tup(r, n):
    return vals(*r) if isinstance(r, tuple) and len(r) == n else ('#', 'T', repr(type(r)))


def add_obj(H, b):
    j = H.keep(b)
    w.add(['init', [[j, H.last[j]]]])
    return H.ref(j)


seq = [0]


def op_prim(H):
    sub = rng.choice(['addc', 'addc', 'lsl_c', 'lsr_c', 'asr_c', 'ror_c', 'lsl', 'lsr', 'asr', 'ror', 'rrx_c', 'rrx', 'shift_c',
                      'shift_c', 'shift', 'immshift', 'expand_c', 'expand_c', 'expand', 'align', 'aligni'])
    n = rng.choice([1, 2, 3, 4, 5, 7, 8, 12, 16, 31, 32, 32, 33, 40, 64]) if rng.random() < 0.94 else rng.choice([65, 72, 100, 128, 150])
    x = add_obj(H, bitstring(val(n), n))
    c = H.ref(rng.choice([1, 2])) if rng.random() < 0.7 else add_obj(H, bitstring(rng.randrange(2), 1))
    amt = rng.choice([1, 2, 3, n - 1, n, n + 1, 2 * n, 31, 32, 33, 64, 255, rng.randrange(1, 2 * n + 2)])
    if rng.random() < 0.04:
        amt = rng.choice([256, 257, 511, 512, 600, 1000, 1023, 1024, 1025, 2047, 2049, 4095, 4096, 4097]) + rng.choice([0, 0, n])
    amt0 = 0 if rng.random() < 0.2 else amt
    amt = max(1, amt)
    if sub == 'addc':
        k = rng.random()
        v = x[1].unsigned
        m = (1 << n) - 1
        y = (~v + rng.choice([0, 1, -1])) & m if k < 0.3 else ((1 << (n - 1)) - v + rng.choice([0, -1, 1])) & m if k < 0.5 else val(n)
        y = add_obj(H, bitstring(y, n)) if rng.random() < 0.9 else x
        H.do('prim', sub, [x, y, c], lambda x, y, c: tup(hp.AddWithCarry(x, y, c), 3))
    elif sub in ('lsl_c', 'lsr_c', 'asr_c', 'ror_c'):
        f = getattr(hp, sub.upper())
        H.do('prim', sub, [x, H.small(amt)], lambda x, k: tup(f(x, k), 2))
    elif sub in ('lsl', 'lsr', 'asr', 'ror'):
        f = getattr(hp, sub.upper())
        H.do('prim', sub, [x, H.small(amt0)], lambda x, k: vals(f(x, k)))
    elif sub == 'rrx_c':
        H.do('prim', sub, [x, c], lambda x, c: tup(hp.RRX_C(x, c), 2))
    elif sub == 'rrx':
        H.do('prim', sub, [x, c], lambda x, c: vals(hp.RRX(x, c)))
    elif sub in ('shift_c', 'shift'):
        t = rng.randrange(6)
        k = 1 if t == 5 else amt0
        f = (lambda x, k, c, t: tup(hp.Shift_C(x, SR[t], k, c), 2)) if sub == 'shift_c' else \
            (lambda x, k, c, t: vals(hp.Shift(x, SR[t], k, c)))
        H.do('prim', sub, [x, H.small(k), c, H.small(t)], f)
    elif sub == 'immshift':
        seq[0] += 1
        q = seq[0] % 128
        x = add_obj(H, bitstring(q >> 5, 2))
        y = add_obj(H, bitstring(q & 31, 5))

        def f(a, b):
            t, k = hp.DecodeImmShift(a, b)
            return ('#', t.name.split('_')[1].lower(), k) if type(k) is int else ('#', 'T', repr(k))
        H.do('prim', sub, [x, y], lambda a, b: P(*f(a, b)))
    elif sub in ('expand', 'expand_c'):
        seq[0] += 1
        q = (seq[0] * A.nshards + A.shard) * 1237 % 4096
        x = add_obj(H, bitstring(q, 12))
        if sub == 'expand':
            H.do('prim', sub, [x, c], lambda x, c: vals(hp.ThumbExpandImm(x)))
        else:
            H.do('prim', sub, [x, c], lambda x, c: tup(hp.ThumbExpandImm_C(x, c), 2))
    elif sub == 'align':
        k = rng.randrange(n + 2)
        H.do('prim', sub, [x, H.small(k)], lambda x, k: vals(hp.Align(x, 1 << k)))
    else:
        k = rng.randrange(12)
        H.do('prim', sub, [H.num(val(32) if rng.random() < 0.8 else integer()), H.small(k)], lambda x, k: hp.Align(x, 1 << k))


class P(tuple):
    """a pair <<"P", type, amount>>"""
    def __new__(cls, a, t, k):
        return tuple.__new__(cls, (a, t, k))


_result = History.result


def result(self, r, keep):
    if type(r) is P:
        return ['P', r[1], r[2]]
    return _result(self, r, keep)


History.result = result

MIX = {'C14': [(op_bin, 70), (op_get, 12), (op_new, 6), (op_put, 6), (op_un, 6)],
       'C15': [(op_bin, 25), (op_mod, 10), (op_new, 12), (op_un, 15), (op_put, 20), (op_get, 10), (op_cmp, 6), (op_hash, 2)],
       'C16': [(op_un, 30), (op_put, 18), (op_get, 24), (op_new, 14), (op_mod, 14)],
       'C17': [(op_cmp, 70), (op_hash, 20), (op_put, 10)],
       'C18': [(op_prim, 1)]}[A.prop]
OPS = [f for f, n in MIX for _ in range(n)]
STEPS = {'C17': 30, 'C18': 20}.get(A.prop, 40)

while w.events < A.scale(*{'C18': (100000, 2000000)}.get(A.prop, (60000, 1500000))):
    H = History()
    for _ in range(STEPS):
        f = rng.choice(OPS)
        if f is op_get and A.prop == 'C14':
            op_get(H, ['value', 'unsigned', 'signed', 'int', 'index', 'mask'])
        else:
            f(H)
    w.flush()
A.done(w, kinds=kinds)
