"""C22: disassembly of byte sequences, several at a time."""
from base import *
from machine import *
from words import *

A = Args()
rng = A.rng
w = Writer(A.out)
ENC = A.table()
W = Words(A)
FMT = Formatter(Cpu())
cnt = {}
OK16 = [i for i, e in enumerate(ENC) if not e['q']]
EASY = [i for i, e in enumerate(ENC) if e['g'] in ('arith', 'logic', 'extend', 'ldst')]
OK32 = [i for i, e in enumerate(ENC) if e['q']]


def halves(n):
    out = []
    clean = n - rng.choice([0, 1, 5, 40]) if n > 100 else 0         # a long one does not end early
    while len(out) < n:
        if len(out) < clean:
            i = rng.choice(EASY)
            out += assemble(ENC[i], W.fields(ENC[i], i, 0))[:2 if ENC[i]['q'] else 1] * rng.choice([1, 1, 1, 1, 2])
            continue
        k = rng.random()
        if out and k < 0.06:                                # once more
            out += out[-rng.choice([1, 2, 2, 3]):]
        elif k < 0.5:
            i = rng.choice(OK16)
            out.append(assemble(ENC[i], W.fields(ENC[i], i, 0.05))[0])
        elif k < 0.9:
            i = rng.choice(OK32)
            out += assemble(ENC[i], W.fields(ENC[i], i, 0.05))
        elif k < 0.95:
            out.append(rng.getrandbits(16))
        elif k < 0.97:
            out.append(rng.choice([29, 30, 31]) << 11 | rng.getrandbits(11))
        else:
            out.append(rng.choice([0xb100, 0xb400, 0xc000, 0xffff, 0xe800, 0xb900, 0x0000, 0x4780]))
    return out[:n]


def text(ins):
    t, exc = guarded(FMT.format, ins)
    if exc or not isinstance(t, str):
        return exc or 'not a text'
    return ''.join(c if ' ' <= c <= '~' else '?' for c in t)


class Stream(object):
    def __init__(self, k):
        self.k = k
        n = rng.choice([0, 1, 2, 3, 4, 6, 10, 20])
        if rng.random() < 0.01:                # now and then a long one
            n = rng.choice([600, 1200, 2500])
        bs = []
        for h in halves(n):
            bs += [h & 255, h >> 8]
        if rng.random() < 0.3:
            bs.append(rng.randrange(256))
        a = address(rng)
        if rng.random() < 0.15:
            a = 0x100000000 - len(bs) - rng.choice([0, 1, 2, 4]) & ~1
        if a + len(bs) > 0x100000000 or a < 0:
            a = 0x1000
        self.keep = list(bs)
        self.data = rng.choice([bytes, bytearray])(bytearray(bs))
        self.d = rng.choice(SHARED) if rng.random() < 0.5 else Disassembler()
        if a == 0 and rng.random() < 0.5:
            self.it, exc = guarded(lambda: iter(self.d.disasm(self.data)))
        else:
            self.it, exc = guarded(lambda: iter(self.d.disasm(self.data, a)))
        w.add(['N', k, limbs(a), bs])
        self.broken = exc
        self.over = 0
        self.seen = []

    def far(self):
        """starts over as one instruction repeated many times, of which all but a few are taken at once"""
        i = rng.choice(EASY)
        hs = assemble(ENC[i], W.fields(ENC[i], i, 0))[:2 if ENC[i]['q'] else 1]
        unit = [b for h in hs for b in (h & 255, h >> 8)]
        count = (rng.choice([0x8000, 0x10000, 0x10000, 0x18000]) + rng.randrange(200)) // len(unit)
        n = count - rng.randint(1, 60)
        tail = [b for h in halves(rng.randrange(6)) for b in (h & 255, h >> 8)] + [7] * (rng.random() < 0.3)
        a = address(rng)
        if a + len(unit) * count + 16 > 0x100000000:
            a = 0x1000
        self.data = bytearray(unit * count + tail)
        self.keep = list(self.data)
        self.it, self.broken = guarded(lambda: iter(self.d.disasm(self.data, a)))
        got, where, kinds = 0, [], []
        marks = set([0, 1, n // 2, n - 1] + [rng.randrange(n) for _ in range(8)])

        def take():
            ins = next(self.it)
            if got in marks:
                where.append([got, limbs(ins.address)])
            x = [str(ins.mnemonic), list(bytearray(ins.bytes))]
            if x not in kinds and len(kinds) < 10:
                kinds.append(x)
        while got < n and not self.broken:
            _, exc = guarded(take)
            if exc:
                break
            got += 1
        w.add(['H', self.k, limbs(a), unit, count, tail, n, got, kinds, where])

    def look(self, ins):
        got, exc = guarded(lambda: (str(ins.mnemonic), list(bytearray(ins.bytes)), ins.address))
        mn, bs, ia = got if not exc else (exc, [], -1)
        return [mn, bs, limbs(ia) if isinstance(ia, int) and 0 <= ia < 1 << 32 else [-1, -1], text(ins)]

    def again(self):
        if self.seen:
            k = rng.randrange(len(self.seen))
            w.add(['Z', self.k, k + 1] + self.look(self.seen[k]))

    def next(self):
        def go():
            try:
                return 'ok', next(self.it)
            except StopIteration:
                return 'end', None
        got, exc = guarded(go) if not self.broken else (None, self.broken)
        st, ins = got if exc == '' else ({'UndefinedInstructionError': 'undef', 'UnpredictableError': 'unpred'}.get(exc, exc), None)
        look = self.look(ins) if st == 'ok' else ['', [], [-1, -1], '']
        if st == 'ok':
            self.seen.append(ins)
        if list(bytearray(self.data)) != self.keep:
            st = 'input changed'
        cnt[st] = cnt.get(st, 0) + 1
        w.add(['Y', self.k, st] + look)
        if st != 'ok':
            self.over += 1


SHARED = [Disassembler() for _ in range(2)]


def history():
    live = []
    k = 0
    while k < 8 or live:
        if k < 8 and (not live or rng.random() < 0.2):
            k += 1
            live.append(Stream(k))
            if rng.random() < 0.004:
                live[-1].far()
            continue
        s = rng.choice(live)
        if rng.random() < 0.3:
            s.again()
        for _ in range(rng.choice([1, 1, 2, 5, 30]) if len(s.keep) < 100 else 400):
            s.next()
            if s.over >= 1 and rng.random() < 0.8 or s.over > 3:
                live.remove(s)
                break
        else:
            if rng.random() < 0.05:
                live.remove(s)              # never finished
    w.flush()


while w.events < A.scale(24000, 1500000):
    history()
A.done(w, outcomes=cnt)
