"""C01, C02: decode words.  C23: format them.  C24: the label a branch or adr shows."""
import re
from base import *
from machine import *
from words import *

A = Args()
rng = A.rng
w = Writer(A.out)
W = Words(A)
per = 100
cnt = {}


def emit(ev):
    w.add(ev)
    if len(w.chunk) >= per:
        w.flush()


def plain(x):
    return x if type(x) is int else -1


def decoded(h1, h2, nb, addr):
    data = code_bytes(h1, h2, min(nb, 4)) + bytearray(rng.getrandbits(8) for _ in range(max(0, nb - 4)))
    if rng.random() < 0.3:
        data = bytes(data)
    if rng.random() < 0.1:                                      # not the first time
        st, ins = outcome(data, address(rng))
        if st == 'ok' and rng.random() < 0.3:
            guarded(FMT.format, ins)
    st, ins = outcome(data, addr)
    cnt[st] = cnt.get(st, 0) + 1
    return st, ins


def D(h1, h2, nb, addr):
    st, ins = decoded(h1, h2, nb, addr)
    mn, size, bs, ia = '', 0, [], 0
    if st == 'ok':
        got, exc = guarded(lambda: (ins.mnemonic, ins.size, list(bytearray(ins.bytes)), ins.address))
        if exc:
            st = exc
        else:
            mn, size, bs, ia = got
    emit(['D', h1, h2, nb, limbs(addr), st, mn if isinstance(mn, str) else repr(mn), plain(size), bs,
          limbs(ia) if isinstance(ia, int) and 0 <= ia < 1 << 32 else [-1, -1]])


from cmdis.formatter import Operand
FMT = Formatter(Cpu())
LABEL = re.compile(r'\.([+-][0-9]+)')
COMMENT = re.compile(r' ; (0x[0-9a-f]+)$')


def text_of(ins):
    t, exc = guarded(FMT.format, ins)
    if exc or not isinstance(t, str):
        return exc or 'not a text'
    return ''.join(c if ' ' <= c <= '~' else '?' for c in t)


class Broken(Operand):
    """an operand that cannot be formatted"""
    def format(self, formatter):
        raise KeyError('broken')


def T(h1, h2, nb, addr):
    st, ins = decoded(h1, h2, nb, addr)
    if st == 'ok':
        if rng.random() < 0.05:
            # formatting that fails leaves no trace in what the formatter does next
            ops = ins.operands
            ins.operands = list(ops) + [Broken()]
            guarded(FMT.format, ins)
            ins.operands = ops
        emit(['T', h1, h2, nb, limbs(addr), text_of(ins)])


def L(h1, h2, nb, addr):
    """the label shown, and where execution goes (or what adr computes) from there"""
    st, ins = decoded(h1, h2, nb, addr)
    if st != 'ok':
        return
    if rng.random() < 0.1:                                  # moved, perhaps after it was formatted
        if rng.random() < 0.5:
            text_of(ins)
        addr = address(rng)
        _, exc = guarded(setattr, ins, 'address', addr)
        if exc:
            return
    t = text_of(ins)
    rel, absolute = LABEL.findall(t), COMMENT.findall(t)
    d = FlatDelegate(0)
    cpu = Cpu()
    cpu.delegate = d
    d.regs[15] = addr
    d.regs[16] = flags_for(h1)
    before = dict(d.regs)
    _, exc = guarded(ins.execute, cpu)
    emit(['L', h1, h2, nb, limbs(addr), rel[0] if len(rel) == 1 else '', absolute[0] if len(absolute) == 1 else '',
          exc, limbs(d.regs[15]), [[i] + limbs(d.regs[i]) for i in range(15) if d.regs[i] != before[i]],
          limbs(before[16])])


def flags_for(h1):
    return rng.getrandbits(4) << 28


ENC = A.table()
if A.prop == 'C01':
    hs = [h for h in range(0x10000) if not is32(h)]
    reps = 8 if A.thorough else 1
    for r in range(reps):
        order = hs[A.shard::A.nshards]
        rng.shuffle(order)
        for h in order:
            D(h, rng.getrandbits(16), rng.choice([2, 2, 3, 4, 4, 5, 6, 8, 11]), address(rng))
    A.done(w, halfwords=len(order) * reps, outcomes=cnt)

elif A.prop == 'C02':
    E32 = [(i, e) for i, e in enumerate(ENC) if e['q']]
    prefixes = [h for h in range(0x10000) if is32(h)]

    def size():
        return rng.choice([4, 4, 4, 4, 5, 6, 8])
    # every first halfword with second halfwords of every encoding's shape, and short data
    order = prefixes[A.shard::A.nshards]
    k = 40 if A.thorough else 2
    for h in order:
        for _ in range(k):
            D(h, rng.getrandbits(16), size(), address(rng))
        D(h, rng.getrandbits(16), rng.choice([2, 3]), address(rng))
    # words of every encoding, the same with one bit changed, with restricted registers and lists
    for _ in range(A.scale(50000, 2000000)):
        i, e = rng.choice(E32)
        f = W.fields(e, i, badregs=1.0)
        for ch in 'dnmt':
            if ch in f and rng.random() < 0.2:
                f[ch] = rng.choice([12, 13, 14, 15]) & ((1 << letters(e)[ch]) - 1)
        if 's' in f and rng.random() < 0.5:
            f['s'] = rng.getrandbits(8)
        if 'x' in f and rng.random() < 0.5:
            f['x'] = rng.getrandbits(letters(e)['x'])
        h1, h2 = assemble(e, f)
        m = rng.random()
        if m < 0.3:
            b = 1 << rng.randrange(27)
            h1, h2 = h1 ^ (b >> 16), h2 ^ (b & 0xffff)
        elif m < 0.4:
            h2 = rng.getrandbits(16)
        if is32(h1):
            D(h1, h2, size(), address(rng))
    # what is restricted: register lists of up to two registers and all but one, with every base; special registers; r13 and r15
    # in every pair of roles
    todo = []
    for i, e in E32:
        n = letters(e)
        if n.get('r', 0) >= 8:
            k = n['r']
            ones = [1 << a for a in range(k)]
            full = (1 << k) - 1
            lists = [0, full] + ones + [full & ~o for o in ones] + [a | b for a in ones for b in ones if a < b]
            rest = [ch for ch in 'PMWn' if ch in n]
            for l in lists:
                for v in range(1 << sum(n[ch] for ch in rest)):
                    f, left = {'r': l}, v
                    for ch in rest:
                        f[ch] = left & ((1 << n[ch]) - 1)
                        left >>= n[ch]
                    if len(rest) < 3 or l & (l - 1) == 0 or rng.random() < 0.15:
                        todo.append((i, e, f))
        elif 's' in n:
            for v in range(1 << (n['s'] + n.get('x', 0))):
                f = {'s': v & ((1 << n['s']) - 1), 'x': v >> n['s']}
                todo.append((i, e, f))
        else:
            rs = [ch for ch in 'dnmt' if ch in n]
            for a in rs:
                for va in (12, 13, 14, 15):
                    for b in rs:
                        for vb in (0, 13, 14, 15):
                            todo.append((i, e, {b: vb & ((1 << n[b]) - 1), a: va & ((1 << n[a]) - 1)}))
    for i, e, f in todo[A.shard::A.nshards]:
        g = W.fields(e, i, badregs=0.0)
        g.update((ch, v) for ch, v in f.items() if ch in g)
        h1, h2 = assemble(e, g)
        if is32(h1):
            D(h1, h2, size(), address(rng))
    A.done(w, restricted=len(todo), outcomes=cnt)

elif A.prop == 'C23':
    hs = [h for h in range(0x10000) if not is32(h)]
    order = hs[A.shard::A.nshards]
    rng.shuffle(order)
    for h in order:
        T(h, rng.getrandbits(16), 4, address(rng))
    E = list(enumerate(ENC))
    for j in range(A.scale(20000, 1000000)):
        i, e = E[(j * A.nshards + A.shard) % len(E)]
        h1, h2 = assemble(e, W.fields(e, i))
        T(h1, h2, 4, address(rng))
    # every modified immediate constant
    M = [(i, e) for i, e in E if e['k'] in ('rsbw', 'cmpw', 'moviw')]
    for q in range(4096)[A.shard::A.nshards]:
        i, e = rng.choice(M)
        f = W.fields(e, i)
        f['i'] = q
        T(*assemble(e, f), 4, address(rng))
    A.done(w, outcomes=cnt)

elif A.prop == 'C24':
    E = [(i, e) for i, e in enumerate(ENC) if e['k'] in ('bcond', 'b', 'bl', 'adr')]
    for j in range(A.scale(24000, 800000)):
        i, e = E[(j * A.nshards + A.shard) % len(E)]
        f = W.fields(e, i)
        if e['k'] == 'bcond':
            f['c'] = rng.randrange(14)
        h1, h2 = assemble(e, f)
        L(h1, h2, 4, address(rng))
    A.done(w, outcomes=cnt)
