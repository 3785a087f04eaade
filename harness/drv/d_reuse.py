"""C13: decoded instructions kept and used again, on several CPUs, in any order."""
from base import *
from machine import *
from words import *

A = Args()
rng = A.rng
w = Writer(A.out)
W = Words(A)
ENC = A.table()
cnt = {}


def val():
    return value(rng)


# encodings whose effect depends on the configuration or much of the state come more often
PICK = [i for i, e in enumerate(ENC) for _ in range({'mrs': 10, 'cps': 3, 'bcond': 4, 'shr': 2, 'ldm': 3, 'ldmw': 3, 'stm': 3, 'stmw': 3,
                                                     'pop': 3, 'push': 3, 'rev': 2, 'dpi': 2, 'tstw': 6, 'mvnw': 6, 'moviw': 3, 'lsrw': 2}.get(e['k'], 1))]


def newmachine(other=None):
    cfg = (rng.choice([0, 0, 1]), rng.randrange(2), rng.randrange(2))
    if other is not None and rng.random() < 0.6:            # configured the other way round
        cfg = tuple(1 - x for x in other.cpu.cfg)
    return Flat(w, rng.randrange(256), cfg, [val() for _ in range(15)] + [address(rng)] + [val() for _ in range(7)])


def text_of(f, ins):
    t, exc = guarded(f.format, ins)
    return t if exc == '' and isinstance(t, str) else exc or 'not a text'


for _ in range(A.scale(1200, 40000)):
    machines = [newmachine()]
    for _ in range(rng.choice([0, 1, 1, 2])):
        machines.append(newmachine(machines[-1]))
    cur = len(machines) - 1
    fmts = [Formatter(m.cpu) for m in machines]
    es = [rng.choice(PICK) for _ in range(rng.choice([1, 2, 4, 6]))]
    words = []
    for i in es:
        f = W.fields(ENC[i], i)
        if ENC[i]['k'] in ('tstw', 'mvnw') and rng.random() < 0.5:
            f['i'] = 0
        words.append(assemble(ENC[i], f))
        if rng.random() < 0.5:                      # a sibling: same encoding, other fields
            words.append(assemble(ENC[i], W.fields(ENC[i], i)))
    pool = {}
    for _ in range(60):
        k = rng.random()
        if k < 0.2 or not pool:
            h1, h2 = rng.choice(words)
            i = rng.randrange(8)
            a = address(rng)
            st, ins = outcome(code_bytes(h1, h2, 4), a)
            w.add(['N', i, h1, h2, 4, limbs(a), st])
            cnt[st] = cnt.get(st, 0) + 1
            pool[i] = ins if st == 'ok' else None
        elif k < 0.36 and len(machines) > 1:
            cur = rng.randrange(len(machines))
            w.add(['M', cur + 1])
        else:
            live = [i for i in sorted(pool) if pool[i] is not None]
            if not live:
                continue
            i = rng.choice(live)
            ins = pool[i]
            m = machines[cur]
            if k < 0.42:
                got, exc = guarded(lambda: [ins.mnemonic, ins.size, list(bytearray(ins.bytes)), limbs(ins.address)])
                w.add(['A', i] + (got if exc == '' else [exc, 0, [], [0, 0]]))
            elif k < 0.45:
                a = address(rng)
                ins.address = a
                w.add(['S', i, limbs(a)])
            elif k < 0.6:
                before = dict(m.d.regs)
                t = text_of(rng.choice(fmts), ins)
                w.add(['F', i, t, [[INDEX[n]] + limbs(v) for n, v in m.d.regs.items() if v != before[n]]])
            else:
                # often from exactly the same state again
                pokes = []
                if rng.random() < 0.5:
                    r = rng.randrange(15)
                    pokes = [(r, val()), (16, rng.getrandbits(32))]
                m.execute(ins, i, 0, pokes)
                w.chunk[-1][1], w.chunk[-1][2], w.chunk[-1][3] = i, 0, 0
    w.flush()
A.done(w, decodes=cnt)
