"""C03, C04: decoders made from patterns, and decoder trees made from decoders."""
import io, re
from base import *
from cmdis.decoder import Decoder, DecoderTree, Instruction, DecodeError, UnpredictableError, UndefinedInstructionError
from cmdis.bitstring import bitstring

A = Args()
rng = A.rng
w = Writer(A.out)
count = {}
ST = {'UndefinedInstructionError': 'undef', 'UnpredictableError': 'unpred'}
NAMES = ['a', 'b', 'S', 'Rn', 'Rd', 'imm8', 'op2', 'x', 'y', 'Rm', 'i', 'imm5', 'J1', 'type', 'Z9z', 'self', 'word', 'k0', 'q10', 'T', 'z']
NAMES.remove('self')


def bits(v, n):
    return [(v >> i) & 1 for i in reversed(range(n))]


FAILS = {'KeyError': KeyError, 'ValueError': ValueError, 'IndexError': IndexError}


class Trees(object):
    """a decoder tree with the handlers' log"""
    def __init__(self):
        self.tree = DecoderTree()
        self.log = []
        self.hs = []
        self.top = 0
        self.made = []
        w.add(['tree'])

    def add(self, t1, t2=None, beh=(0, 'ok', 'ok'), **kw):
        self.top += 1
        me = self.top

        def handler(*instr, **fields):
            word = int(handler.word)
            self.log.append([me, [[n, bits(b.unsigned, b.width)] if isinstance(b, bitstring) else [n, [-1]]
                                  for n, b in sorted(fields.items())]])
            d = beh[1] if (word >> beh[0]) & 1 else beh[2]
            if d == 'decline':
                raise DecodeError()
            if d == 'unpred':
                raise UnpredictableError()
            if d in FAILS:
                raise FAILS[d]('handler')
        self.hs.append(handler)

        def make():
            d = Decoder(handler, 'm%d' % me, Instruction, t1) if t2 is None else Decoder(handler, 'm%d' % me, Instruction, t1, t2)
            self.tree.add_decoder(d)
        _, exc = guarded(make)
        w.add(['add', me, list(t1), list(t2) if t2 is not None else ['none'], list(beh), exc])
        if not exc:
            self.made.append(me)
        count['made' if not exc else 'rejected'] = count.get('made' if not exc else 'rejected', 0) + 1
        return not exc

    def build(self):
        _, exc = guarded(self.tree.build)
        w.add(['build', exc])

    def dump(self):
        def go():
            saved = sys.stdout
            sys.stdout = io.StringIO()
            try:
                self.tree.dump()
                return sorted(int(x) for x in re.findall(r'\bm(\d+)\b', sys.stdout.getvalue()))
            finally:
                sys.stdout = saved
        ids, exc = guarded(go)
        w.add(['dump', exc, ids or []])

    def decode(self, h1, h2=None, addr=None):
        wide = h1 >> 11 in (29, 30, 31)
        data = bytearray([h1 & 255, h1 >> 8])
        if h2 is not None:
            data += bytearray([h2 & 255, h2 >> 8])
        n = len(data)
        if n == 4 and rng.random() < 0.2:
            data += bytearray([rng.randrange(256)] * rng.randint(1, 4))
        word = h1 | ((h2 or 0) << 16) if wide else h1
        for h in self.hs:
            h.word = word
        del self.log[:]
        if addr is None:
            i, exc = guarded(self.tree.decode, data)
        else:
            i, exc = guarded(lambda: self.tree.decode(data, addr) if rng.random() < 0.5 else self.tree.decode(data, dataAddress=addr))
        st, who, size, at = ST.get(exc, exc) or 'ok', 0, 0, [0, 0]
        if not exc:
            def look():
                return int(i.mnemonic[1:]), i.size, limbs(i.address)
            r, e2 = guarded(look)
            if e2:
                st = e2
            else:
                who, size, at = r
        count[st] = count.get(st, 0) + 1
        w.add(['decode', h1, h2 or 0, n, limbs(addr or 0), [list(x) for x in self.log], st, who, size, at])


# ------------------------------------------------------------------- patterns
def blank():
    return rng.choice(['', '', '', ' ', ' ', '  ', '\t', ' \n '])


def gap():
    return rng.choice([' ', ' ', ' ', '  ', '\t', '\n  '])


def text_of(cells, names, fixedname=0.2):
    """a pattern text for 16 cells of 0, 1, 2 (any)"""
    out = ''
    i = 0
    tail = 'sep'
    while i < len(cells):
        if cells[i] == 2:
            j = i
            while j < len(cells) and cells[j] == 2:
                j += 1
            j = rng.choice([j, j, rng.randint(i + 1, j)])
            n = names.pop()
            if tail == 'id':
                out += gap()
            if j - i == 1 and rng.random() < 0.6:
                out += n
                tail = 'id'
            else:
                out += n + blank() + '(' + rng.choice(['', '', '', ' ']) + rng.choice(['', '', '', '0']) + str(j - i) + \
                    rng.choice(['', '', '', ' ']) + ')' + blank()
                tail = 'sep'
            i = j
        else:
            if names and len(names) > 3 and rng.random() < fixedname:
                j = i
                while j < len(cells) and cells[j] != 2:
                    j += 1
                j = rng.randint(i + 1, j)
                n = names.pop()
                if tail == 'id':
                    out += gap()
                out += n + '=' + ''.join(str(c) for c in cells[i:j])
                tail = 'bits'
                i = j
                if i < len(cells):
                    if cells[i] != 2 or rng.random() < 0.8:
                        out += gap()
                        tail = 'sep'
                continue
            if tail == 'id':
                out += gap()
            out += str(cells[i])
            if rng.random() < 0.1:
                out += blank()
            tail = 'sep'
            i += 1
    if rng.random() < 0.1:
        out += gap()
    if rng.random() < 0.1:
        out = gap() + out
    return out


def fresh_names():
    n = list(NAMES) + ['n%d' % k for k in range(40)]
    rng.shuffle(n)
    return n


def value_of(cells):
    v = 0
    for c in cells:
        v = v * 2 + (rng.randrange(2) if c == 2 else c)
    return v


def cells(n=16, free=None):
    p = rng.choice([0.0, 0.3, 0.5, 0.7, 0.9, 1.0]) if free is None else free
    r = []
    while len(r) < n:                       # runs
        k = rng.randint(1, 6)
        r += [2] * k if rng.random() < p else [rng.randrange(2) for _ in range(k)]
    return r[:n]


def not_wide(c):
    if c[:3] == [1, 1, 1]:
        c[rng.randrange(3)] = 0
    return c


def wide(c):
    c[:5] = rng.choice([[1, 1, 1, 1, 1], [1, 1, 1, 1, 0], [1, 1, 1, 0, 1], [1, 1, 1, 1, 2], [1, 1, 1, 2, 1], [1, 1, 1, 2, 2]])
    return c


def fix_first(h, is32):
    """makes a first halfword of the wanted size"""
    if is32 and h >> 11 not in (29, 30, 31):
        return rng.choice([29, 30, 31]) << 11 | h & 0x7ff
    return h


# ------------------------------------------------------------------------ C04
JUNK = ";:,.-+*/#@!?[]{}<>&|^~'\"\\$%"


def spoil(t):
    k = rng.random()
    i = rng.randrange(len(t) + 1)
    if k < 0.06:                            # a field without bits does not make up for a missing bit
        j = [a for a, c in enumerate(t) if c in '01' and not t[:a].rstrip('0123456789').endswith(('(', '( '))]
        a = rng.choice(j) if j else 0
        return t[:a] + rng.choice([' zz(0) ', ' zz( 0 ) ', ' zz(00\t) ', ' zz(0 ) ']) + t[a + 1:]
    if k < 0.4:
        return t[:i] + rng.choice(JUNK) + t[i:]
    if k < 0.5:                             # bits counted where there is no name
        j = [a for a, c in enumerate(t) if c in '01']
        a = rng.choice(j) if j else 0
        return t[:a + 1] + rng.choice(['(%d)', ' (%d)', '( %d )', ')', '=']).replace('%d', str(rng.randrange(1, 6))) + \
            (t[a + 1:] if rng.random() < 0.5 else t[a + 2:])
    if k < 0.6:
        return t[:i] + rng.choice('23456789') + t[i:]
    if k < 0.7:
        return t[:i] + rng.choice('01') + t[i:]
    if k < 0.8 and t:
        return t[:i] + t[i + 1:]
    if k < 0.9:
        return t[:i] + rng.choice(['a', 'Q', ' (', ')', '(', '=']) + t[i:]
    return t[:i]


def patterns():
    T = Trees()
    for _ in range(6):
        names = fresh_names()
        two = rng.random() < 0.45
        c1 = wide(cells()) if two else not_wide(cells())
        c2 = cells() if two else None
        fx = rng.choice([0, 0.1, 0.5])
        t1 = text_of(c1, names, fx)
        t2 = text_of(c2, names, fx) if two else None
        if rng.random() < 0.3:
            if two and rng.random() < 0.5:
                t2 = spoil(t2)
            else:
                t1 = spoil(t1)
        T = Trees()
        if not T.add(t1, t2):
            continue
        T.build()
        for _ in range(8 if T.made else 1):
            v1 = value_of(c1)
            v2 = value_of(c2) if two else rng.getrandbits(16)
            if rng.random() < 0.4:
                if two and rng.random() < 0.5:
                    v2 ^= 1 << rng.randrange(16)
                else:
                    v1 ^= 1 << rng.randrange(16)
            v1 = fix_first(v1, two)
            T.decode(v1, v2 if two or rng.random() < 0.3 else None)


# ------------------------------------------------------------------------ C03
def family(two):
    """patterns that have a lot in common"""
    n = 32 if two else 16
    k = rng.randint(1, 8) if rng.random() < 0.9 else rng.randint(10, 30)
    core = [wide(cells(16, 0.6)) + cells(16, 0.8) if two else not_wide(cells(16, 0.6))][0]
    mask = [rng.random() < rng.choice([0.2, 0.5, 0.8]) for _ in range(n)]
    out = []
    for _ in range(k):
        q = rng.random()
        c = list(rng.choice(out)) if out and q < 0.55 else list(core)
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            i = rng.randrange(n)
            c[i] = rng.choice([0, 1, 2])
        if q > 0.8:
            c = [x if m else 2 for x, m in zip(c, mask)]
        elif q > 0.75:
            c = [2] * n
        if two:
            if 0 in c[:3]:
                c[:3] = [1, 1, 1]
            c = c[:n]
        out.append(c)
    return out


BEH = ['ok', 'ok', 'ok', 'decline', 'decline', 'decline', 'unpred', 'unpred', 'KeyError', 'ValueError', 'IndexError']


def selection():
    T = Trees()
    fams = {two: family(two) for two in ((False, True) if rng.random() < 0.5 else (rng.random() < 0.5,))}
    todo = [(two, c) for two in fams for c in fams[two]]
    rng.shuffle(todo)
    cut = rng.choice([len(todo), len(todo), rng.randrange(len(todo) + 1)])
    allc = list(todo)

    def put(two, c):
        names = fresh_names()
        n = 32 if two else 16
        beh = [rng.randrange(n), rng.choice(BEH), rng.choice(BEH)]
        if rng.random() < 0.35:
            beh[1] = beh[2] = rng.choice(['ok', 'decline', 'decline'])
        T.add(text_of(c[:16], names, 0.1), text_of(c[16:], names, 0.1) if two else None, tuple(beh))

    def look():
        for _ in range(rng.randint(4, 16)):
            two, c = rng.choice(allc)
            v1, v2 = value_of(c[:16]), value_of(c[16:]) if two else rng.getrandbits(16)
            for _ in range(rng.choice([0, 0, 0, 1, 1, 2])):
                if two and rng.random() < 0.6:
                    v2 ^= 1 << rng.randrange(16)
                else:
                    v1 ^= 1 << rng.randrange(16)
            if rng.random() < 0.05:
                v1, v2 = rng.getrandbits(16), rng.getrandbits(16)
            addr = None if rng.random() < 0.3 else rng.choice([0, 2, 0x1000, rng.getrandbits(32) & ~1])
            q = rng.random()
            T.decode(fix_first(v1, two) if q < 0.95 else v1, None if (two and q > 0.97) or (not two and q < 0.6) else v2, addr)
    for two, c in todo[:cut]:
        put(two, c)
    T.build()
    look()
    if cut < len(todo):
        for two, c in todo[cut:]:
            put(two, c)
        T.build()
        look()
    if rng.random() < 0.1:
        T.dump()


while w.events < A.scale(*{'C03': (40000, 1600000), 'C04': (40000, 1600000)}[A.prop]):
    for _ in range(6):
        (selection if A.prop == 'C03' else patterns)()
    w.flush()
A.done(w, outcomes=count)
