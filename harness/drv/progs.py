"""Programs that do something: loops, calls, stack, self-modification."""
from base import *
from machine import *
from words import *

A = Args()
rng = A.rng
ENC = A.table()
W = Words(A)
BODY = [i for i, e in enumerate(ENC) if e['g'] in ('arith', 'logic', 'extend', 'ldst', 'system')
        ]
LOW = [i for i in BODY if not ENC[i]['q'] and ENC[i]['g'] in ('arith', 'logic', 'extend', 'ldst')]
MULTI = [i for i, e in enumerate(ENC) if e['g'] == 'multi']
BY = {}
for i, e in enumerate(ENC):
    BY.setdefault((e['mn'], e['p']), i)


def enc(mn, **f):
    """the first encoding of this mnemonic with exactly these fields"""
    for e in ENC:
        if e['mn'] == mn and set(letters(e)) == set(f):
            return assemble(e, f)
    raise KeyError(mn)


def words(e, f):
    h = assemble(e, f)
    return h if e['q'] else h[:1]


def rand_body(avoid=()):
    i = rng.choice(LOW if rng.random() < 0.6 else BODY)
    e = ENC[i]
    for _ in range(20):
        f = W.fields(e, i, badregs=0.02)
        if f.get('d') in avoid or f.get('t') in avoid:
            continue
        if rng.random() > 0.03 and (f.get('d') == 15 or f.get('t') == 15 and e['mn'].startswith('ld')):
            continue
        if e['k'] == 'litw' and rng.random() < 0.8:
            f['i'] = rng.randrange(64)
        if e['k'] in ('lsi', 'lsr', 'lsrw') and rng.random() < 0.7:
            f['n'] = rng.choice((0, 1, 7))
            if f.get('t') in avoid or (e['k'] != 'lsi' and rng.random() < 0.5):
                f['m'] = 6
        return [words(e, f)]
    return []


def movw(rd, v):
    return [BYTE('movw', d=rd, i=v >> 11 & 1, v=v)]


def BYTE(mn, d, i, v):
    # movw rd, #imm16: imm4 in j, imm1:imm3:imm8 in i
    e = [x for x in ENC if x['mn'] == 'movw'][0]
    return words(e, {'d': d, 'j': v >> 12, 'i': v & 0xfff})


class Prog(object):
    """items: lists of halfwords, ('label', name), ('b', cond, name), ('bl', name), ('adr', rd, name), ('word', name, plus), ('align',)"""
    def __init__(self):
        self.items = []
        self.n = 0

    def label(self):
        self.n += 1
        return 'L%d' % self.n

    def add(self, *xs):
        self.items += xs

    def size(self, it):
        if isinstance(it, list):
            return 2 * len(it)
        return {'label': 0, 'b': 2, 'bl': 4, 'adr': 2, 'word': 4}[it[0]]

    def build(self, base):
        at = {}
        a = base
        for it in self.items:
            if it[0] == 'align' and a % 4:
                a += 2
            elif it[0] == 'align':
                pass
            elif it[0] == 'label':
                at[it[1]] = a
            else:
                a += self.size(it)
        out = []
        a = base
        for it in self.items:
            if isinstance(it, list):
                out += it
            elif it[0] == 'align':
                if a % 4:
                    out += [0xbf00]
                    a += 2
                continue
            elif it[0] == 'b':
                o = at[it[2]] - (a + 4)
                if it[1] is None:
                    out += [0xe000 | (o >> 1) & 0x7ff]
                else:
                    out += [0xd000 | it[1] << 8 | (o >> 1) & 0xff]
            elif it[0] == 'bl':
                o = (at[it[1]] - (a + 4)) & 0x1ffffff
                s = o >> 24 & 1
                j1, j2 = 1 - ((o >> 23 & 1) ^ s), 1 - ((o >> 22 & 1) ^ s)
                out += [0xf000 | s << 10 | (o >> 12) & 0x3ff, 0xd000 | j1 << 13 | j2 << 11 | (o >> 1) & 0x7ff]
            elif it[0] == 'word':
                o = (at[it[1]] + it[2]) & 0xffffffff
                out += [o & 0xffff, o >> 16]
            elif it[0] == 'adr':
                o = at[it[2]] - ((a + 4) & ~3)
                out += [0xa000 | it[1] << 8 | (o >> 2) & 0xff]
            a += self.size(it)
        return out, at


def program():
    p = Prog()
    funcs = []

    def idiom(avoid):
        free = [r for r in range(8) if r not in avoid]
        j = rng.randrange(6)
        if j == 0:                                         # a frame pointer, sometimes not word-aligned
            r = rng.choice(free + [8, 9, 11, 12])
            n = rng.randint(1, 8)
            p.add([0x4668 | (r & 8) << 4 | r & 7], [0xb080 | n])
            for _ in range(rng.randint(0, 2)):
                p.add(*rand_body(avoid + (r,)))
            if r < 8 and rng.random() < 0.4:
                p.add([0x3000 | r << 8 | rng.randrange(4)])
            p.add([0x4685 | r << 3])
        elif j == 1:                                       # sums and differences of two words
            a, b = rng.choice(free), rng.choice(free)
            c, d = rng.randrange(8), rng.randrange(8)
            if rng.random() < 0.5:
                p.add([0x1800 | c << 6 | a << 3 | a], [0x4140 | d << 3 | b])
            else:
                p.add([0x1a00 | c << 6 | a << 3 | a], [0x4180 | d << 3 | b])
            p.add(('b', rng.randrange(14), 'start') if rng.random() < 0.15 else [0xbf00])
        elif j == 2:                                       # a jump to an address in a table
            l, t = p.label(), p.label()
            r = rng.choice(free)
            go = rng.randrange(4)
            plus = rng.choice([0, 1]) if go != 3 else 0
            p.add(('adr', r, t))
            if go == 3:                                    # ldr.w pc, [r]
                p.add([0xf8d0 | r, 0xf000])
            else:
                p.add([0x6800 | r << 3 | r], [(0x4700, 0x4780, 0x4687)[go] | r << 3])
            p.add(('align',), ('label', t), ('word', l, plus), ('label', l))
        elif j == 3 and len(free) >= 3:                    # copy bytes, halfwords or words
            l = p.label()
            a, b, c = rng.sample(free, 3)
            z = rng.randrange(3)
            ld, st = (0x7800, 0x8800, 0x6800)[z], (0x7000, 0x8000, 0x6000)[z]
            x = [r for r in range(8) if r not in (a, b, c)][0]
            if x in avoid:
                return
            p.add([0x2000 | c << 8 | rng.randint(1, 4)], ('adr', a, 'start') if rng.random() < 0.3 else [0xbf00], ('label', l),
                  [ld | a << 3 | x], [st | b << 3 | x], [0x3000 | a << 8 | 1 << z], [0x3000 | b << 8 | 1 << z],
                  [0x3800 | c << 8 | 1], ('b', 1, l))
        elif j == 4 and not avoid:                         # copy code to where r0 points and call it
            l = p.label()
            src = p.label()
            p.add([0x07c0 | 0, ], [0x0fc0] if rng.random() < 0.1 else [0x4668])      # r0 = sp, mostly
            p.items.pop(-2)
            p.add([0x3840], ('adr', 1, src), [0xc93c], [0xc03c], [0x3800 | 16], [0x3000 | rng.choice([0, 1])],
                  [0x4780 if rng.random() < 0.8 else 0x4700], ('b', None, l), ('align',), ('label', src))
            body = []
            while len(body) < 7:
                x = [y for i in rand_body((0, 1)) for y in i]
                if x and len(body) + len(x) <= 7:
                    body += x
            p.add(*[[h] for h in body])
            p.add([0x4770], ('label', l))
        else:                                              # a value kept on the stack through a call
            f = rng.choice(funcs) if funcs else 'F0'
            if f not in funcs:
                funcs.append(f)
            lst = rng.randrange(1, 256)
            p.add([0xb500 | lst], ('bl', f), [0xb001 if rng.random() < 0.1 else 0xbf00], [0xbc00 | lst], [0xb001])

    def block(depth, avoid):
        k = rng.random()
        if rng.random() < 0.12:
            idiom(avoid)
        elif k < 0.42:
            for _ in range(rng.randint(1, 4)):
                p.add(*rand_body(avoid))
        elif k < 0.52 and depth < 2:                       # counted loop
            c = rng.choice([r for r in (2, 3, 4, 5) if r not in avoid] or [5])
            l = p.label()
            p.add([0x2000 | c << 8 | rng.randint(1, 3)], ('label', l))
            block(depth + 1, avoid + (c,))
            if rng.random() < 0.5:
                block(depth + 1, avoid + (c,))
            p.add([0x3800 | c << 8 | 1], ('b', rng.choice([1, 1, 12]), l))
        elif k < 0.66:                                     # if / else
            l, m = p.label(), p.label()
            if rng.random() < 0.7:
                p.add([0x2800 | rng.randrange(8) << 8 | rng.choice([0, 1, 128, 255])])
            p.add(('b', rng.randrange(14), l))
            for _ in range(rng.randint(0, 2)):
                p.add(*rand_body(avoid))
            if rng.random() < 0.5:
                p.add(('b', None, m))
            p.add(('label', l))
            for _ in range(rng.randint(0, 2)):
                p.add(*rand_body(avoid))
            p.add(('label', m))
        elif k < 0.76:                                     # call
            f = rng.choice(funcs) if funcs and rng.random() < 0.5 else 'F%d' % len(funcs)
            if f not in funcs:
                funcs.append(f)
            if rng.random() < 0.6:
                p.add(('bl', f))
            else:
                r = rng.choice([r for r in range(2, 7) if r not in avoid] or [6])
                p.add(('adr', r, f), [0x1c40 | r << 3 | r] if rng.random() < 0.8 else [0xbf00],
                      [0x4780 | r << 3])
        elif k < 0.86:                                     # stack
            j = rng.random()
            lst = rng.randrange(1, 256)
            if j < 0.4:
                p.add([0xb400 | lst])
                for _ in range(rng.randint(0, 2)):
                    p.add(*rand_body(avoid))
                p.add([0xbc00 | lst])
            elif j < 0.6:
                n = rng.randint(1, 8)
                p.add([0xb080 | n], [0x9000 | rng.randrange(8) << 8 | rng.randrange(n)],
                      [0x9800 | rng.choice([r for r in range(8) if r not in avoid]) << 8 | rng.randrange(n)], [0xb000 | n])
            else:
                i = rng.choice(MULTI)
                e = ENC[i]
                f = W.fields(e, i, badregs=0.05)
                if e['k'] in ('stm', 'ldm', 'stmw', 'ldmw'):
                    f['n'] = rng.choice((0, 1, 7))
                if rng.random() < 0.9:
                    if 'P' in f:
                        f['P'] = 0
                    if e['k'] == 'pop1' and f['t'] in (13, 15):
                        f['t'] = 1
                    if e['k'] == 'ldmw' or e['k'] == 'pop':
                        f['M'] = 0 if 'M' in f else f.get('M')
                        f = dict((a, b) for a, b in f.items() if b is not None)
                p.add(words(e, f))
        elif k < 0.93:                                     # overwrite an instruction that comes later or earlier
            l = p.label()
            v = rng.choice([0x2000 | rng.randrange(2048), 0x1800 | rng.randrange(512), 0x4000 | rng.randrange(1024), 0xbf00])
            a, b = rng.sample([r for r in range(8) if r not in avoid], 2)
            e = [x for x in ENC if x['mn'] == 'movw'][0]
            back = rng.random() < 0.4
            tgt = [('align',), ('label', l), [rng.choice([0xbf00, 0x3001, 0x1c49])], [0xbf00]]
            if back:
                p.add(*tgt)
                p.add(words(e, {'d': a, 'j': v >> 12, 'i': v & 0xfff}))
                # sub from pc is out of reach of adr: take the address from mov rX, pc
                p.add([0x4600 | 15 << 3 | b], [0x3800 | b << 8 | 14])
                p.add([0x8000 | rng.randrange(2) << 6 | b << 3 | a])
            else:
                p.add(words(e, {'d': a, 'j': v >> 12, 'i': v & 0xfff}), ('adr', b, l),
                      [0x8000 | rng.choice([0, 0, 1]) << 6 | b << 3 | a])
                p.add(*tgt)
        elif k < 0.95:                                     # a loop that rewrites half of a 32-bit instruction of its own
            l = p.label()
            a, b, c = rng.sample([r for r in range(8) if r not in avoid], 3) if len(avoid) < 6 else (0, 1, 7)
            d = rng.choice([r for r in range(8) if r not in (b, c)])
            e = [x for x in ENC if x['mn'] == 'movw'][0]
            old = words(e, {'d': d, 'j': rng.randrange(16), 'i': rng.randrange(4096)})
            if rng.random() < 0.3:
                i = rng.choice([i for i in BODY if ENC[i]['q'] and ENC[i]['g'] in ('arith', 'logic', 'extend')])
                old = words(ENC[i], W.fields(ENC[i], i))
            k2 = rng.choice([0, 1, 1, 1])
            v = old[k2] ^ rng.choice([1, 4, 0x80, 0x100, 0x1000]) if rng.random() < 0.8 else rng.getrandbits(16)
            p.add([0x2000 | c << 8 | 2], ('align',), ('label', l), old,
                  words(e, {'d': a, 'j': v >> 12, 'i': v & 0xfff}),
                  # pc is 8 past the label and an operand that is the pc is its plain value
                  [0x4600 | 15 << 3 | b], [0x3800 | b << 8 | 8],
                  [0x8000 | k2 << 6 | b << 3 | a], [0x3800 | c << 8 | 1], ('b', 1, l))
        elif k < 0.965:                                    # computed jumps: bit 0 does not matter, bit 1 does
            l = p.label()
            r = rng.choice([r for r in range(8) if r not in avoid])
            j = rng.random()
            skip = [[0x3000 | rng.choice([r for r in range(8) if r not in avoid]) << 8 | rng.randrange(1, 256)] for _ in range(3)]
            if j < 0.4:                                    # add pc, r
                p.add([0x2000 | r << 8 | 2 * rng.randint(1, 4) + rng.randrange(2)], [0x4487 | r << 3])
                p.add(*skip)
            elif j < 0.7:                                  # mov pc, r
                p.add([0xbf00] if rng.random() < 0.5 else [0x0000 | r], ('adr', r, l), [0x3000 | r << 8 | rng.randrange(4)], [0x4687 | r << 3],
                      [0x2000 | r << 8 | 77], ('align',), ('label', l))
                p.add(*skip)
            else:                                          # bx or blx to it
                p.add(('adr', r, l), [0x3000 | r << 8 | rng.randrange(4)], [0x4700 | rng.randrange(2) << 7 | r << 3],
                      [0x2000 | r << 8 | 77], ('align',), ('label', l))
                p.add(*skip)
        elif k < 0.985:
            idiom(avoid)
        elif k < 0.995:
            p.add([rng.getrandbits(16)] if rng.random() < 0.5 else [0xe800 | rng.getrandbits(12), rng.getrandbits(16)])
        else:
            i = rng.choice(BODY)
            p.add(words(ENC[i], W.fields(ENC[i], i)))

    p.add(('label', 'start'))
    for _ in range(rng.randint(4, 9)):
        block(0, ())
    p.add(('b', None, 'start') if rng.random() < 0.3 else [rng.choice([0xde00, 0xdeff, 0xb100, 0xe800])] if rng.random() < 0.5
          else [0xbf00])
    k = 0
    while k < len(funcs) and k < 4:
        p.add(('align',), ('label', funcs[k]))
        if rng.random() < 0.6:
            p.add([0xb570] if rng.random() < 0.5 else [0xb500])
            e = p.items[-1][0]
            for _ in range(rng.randint(1, 2)):
                block(1, ())
            p.add([0xbd70 if e == 0xb570 else 0xbd00])
        else:
            for _ in range(rng.randint(1, 3)):
                p.add(*rand_body(()))
            p.add([0x4770])
        k += 1
    for f in funcs[k:]:
        p.add(('align',), ('label', f), [0x4770])
    return p


