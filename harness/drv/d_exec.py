"""C05..C12: execute instructions of one group on machines in many states."""
import itertools
from base import *
from machine import *
from words import *

A = Args()
GROUP = {'C05': ['arith'], 'C06': ['logic'], 'C07': ['extend'], 'C08': ['ldst'], 'C09': ['multi'],
         'C10': ['branch'], 'C11': ['system'],
         'C12': ['arith', 'logic', 'extend', 'ldst', 'multi', 'branch', 'system', 'msr']}[A.prop]
ENC = [e for e in A.table() if e['g'] in GROUP]
rng = A.rng
w = Writer(A.out)
FLAGBITS = 0xf0000000


W = Words(A)


def xpsr(rng):
    return rng.getrandbits(32)


def machine():
    cfg = (rng.choice([0, 0, 0, 1]), rng.randrange(2), rng.randrange(2))
    regs = [value(rng) for _ in range(15)] + [pcvalue(), xpsr(rng), value(rng), value(rng), value(rng), value(rng),
                                              value(rng), value(rng)]
    m = Flat(w, rng.randrange(256), cfg, regs)
    if rng.random() < 0.3:                              # in an exception handler
        m.cpu.mode = CpuMode.Handler
    return m


def pcvalue():
    k = rng.random()
    if k < 0.15:
        return rng.choice([0, 2, 4, 6, 0xfffffffc, 0xfffffffe, 0xfffffffa, 0x7ffffffe, 0x80000000, 0xffff, 0xfffe, 0x1fffe])
    return rng.getrandbits(32) & ~1 if k < 0.9 else rng.getrandbits(32)


recent = []          # recently stored addresses


def pokes_for(e, f, j, it):
    p = {}
    k = e['k']
    if rng.random() < 0.8:
        p[16] = xpsr(rng)
    if rng.random() < 0.5:
        p[15] = pcvalue()
    d, n, m, t = (f.get(x) for x in 'dnmt')
    x = value(rng)
    if e['g'] in ('arith', 'logic', 'extend'):
        regs = [r for r in (d, n, m) if r is not None and r != 15]
        if regs and rng.random() < 0.9:
            p[regs[0]] = x
            for r in regs[1:]:
                p[r] = related(rng, x)
        if k in ('addsp', 'addspr1', 'addspr2', 'spimm') and rng.random() < 0.8:
            p[13] = value(rng)
        if k == 'shr' and rng.random() < 0.95:
            amt = W.cycle('amt' + e['mn'], 256)
            p[m] = (rng.getrandbits(24) << 8 | amt) if rng.random() < 0.5 else amt
            if m != d:
                p[d] = value(rng)
        if k in ('cmpi', 'dpi', 'dpi2', 'cmpw', 'rsbw') and rng.random() < 0.5 and n is not None and n != 15:
            p[n] = related(rng, f.get('i', 0))
        if k == 'dpi2' and rng.random() < 0.5:
            p[d] = related(rng, f['i'])
    elif e['g'] == 'ldst':
        tgt = rng.choice(recent) if recent and rng.random() < 0.4 else value(rng)
        off = f.get('i', 0) * (4 if k in ('lssp', 'lit') else {'b': 1, 'h': 2}.get(e['mn'].replace('.w', '')[-1], 4)) \
            if k in ('lsi', 'lssp') else 0
        if k in ('lsr', 'lsrw'):
            o = value(rng) if rng.random() < 0.5 else rng.randrange(256)
            if m != 15:
                p[m] = o
            sh = f.get('x', 0)
            off = (o << sh) & 0xffffffff
            if t not in (n, m) and t != 15 and e['mn'].startswith('st'):
                p[t] = value(rng)
            if n != m and n != 15:
                p[n] = (tgt - off) & 0xffffffff
        elif k == 'lsi':
            if e['mn'].startswith('st'):
                p[t] = value(rng)
            p[n] = (tgt - off) & 0xffffffff
        elif k == 'lssp':
            if e['mn'].startswith('st'):
                p[t] = value(rng)
            p[13] = (tgt - off) & 0xffffffff
        elif rng.random() < 0.5:
            p[15] = (tgt & ~1)
        if e['mn'].startswith('st'):
            recent.append(tgt)
            del recent[:-6]
    elif e['g'] == 'multi':
        r = n if n is not None else 13
        if rng.random() < 0.7 and r != 15:
            p[r] = (rng.choice(recent) if recent and rng.random() < 0.5 else
                    rng.choice([0, 4, 8, 0xfffffffc, 0xfffffff0, 0xffffffe0, value(rng), value(rng) & ~3]))
            recent.append(p[r])
            del recent[:-6]
    elif e['g'] == 'branch':
        if k == 'bcond':
            q = W.cycle('cond', 16 * 14 * 2)
            f['c'] = q % 14
            p[16] = (rng.getrandbits(28)) | ((q // 14) % 16) << 28
        if m is not None and rng.random() < 0.9:
            p[m] = value(rng) if rng.random() < 0.5 else pcvalue() | rng.randrange(2)
    elif e['g'] == 'system':
        for r in (16, 17, 18, 19, 20, 21, 22):
            if rng.random() < 0.6:
                p[r] = value(rng) if rng.random() < 0.5 else rng.getrandbits(32)
        if rng.random() < 0.4:                              # values these registers have in real systems
            p.update({19: rng.randrange(2), 20: rng.choice([0, 0x10, 0x40, 0x80, 0xf0, 0xff]), 21: rng.randrange(2),
                      22: rng.randrange(8)})
        if k == 'cps':
            p[22] = p.get(22, rng.getrandbits(32)) & ~1     # privileged
    return p


def mpokes():
    if rng.random() < 0.1:
        a = value(rng)
        return [((a + i) & 0xffffffff, rng.randrange(256)) for i in range(rng.randint(1, 4))]
    return []


OTHER = FlatDelegate(7)


def warm(ins):
    cpu = Cpu()
    cpu.cfg = rng.choice([(0, 0, 0), (0, 0, 1), (0, 1, 0), (1, 0, 0)])
    cpu.delegate = OTHER
    del OTHER.reads[:], OTHER.writes[:]
    OTHER.mem.clear()
    for r in range(16):
        OTHER.regs[r] = value(rng) & (~1 if r == 15 else ~0)
    OTHER.regs[16] = rng.getrandbits(32)
    guarded(ins.execute, cpu)


per = 40
quick, thorough = {'C05': (40000, 1600000), 'C06': (40000, 1600000), 'C07': (24000, 800000), 'C08': (32000, 1200000),
                   'C09': (16000, 600000), 'C10': (28000, 1000000), 'C11': (24000, 800000), 'C12': (32000, 1200000)}[A.prop]
total = A.scale(quick, thorough)
done = skipped = 0
kinds = {}
order = list(range(len(ENC)))
# every encoding equally often, except those with many states to visit
weights = [4 if ENC[i]['k'] in ('shr', 'bcond', 'lsrw') else 1 for i in order]
pool = [i for i in order for _ in range(weights[i])]
while done < total:
    m = machine()
    for _ in range(per):
        if done >= total:
            break
        i = pool[(done * A.nshards + A.shard) % len(pool)] if rng.random() < 0.5 else rng.choice(pool)
        e = ENC[i]
        f = W.fields(e, i)
        p = pokes_for(e, f, done, m.cpu.cfg[0])
        if m.cpu.mode is CpuMode.Handler and e['g'] == 'system':    # where nothing is unprivileged
            p[22] = p.get(22, rng.getrandbits(32)) & ~1
        h1, h2 = assemble(e, f)
        st, ins = outcome(code_bytes(h1, h2, 4 if e['q'] else rng.choice([2, 4])), rng.getrandbits(32) & ~1)
        done += 1
        if st != 'ok':
            skipped += 1
            continue
        if rng.random() < 0.12:                             # not its first execution
            warm(ins)
        kinds[e['mn']] = kinds.get(e['mn'], 0) + 1
        m.execute(ins, h1, h2, sorted(p.items()), mpokes() if e['g'] in ('ldst', 'multi') else [])
    w.flush()
A.done(w, skipped=skipped, kinds=kinds)
