"""Instruction words worth trying, from the specification's encoding table."""
from base import *


def letters(e):
    n = {}
    for ch in e['p'] + e['q']:
        if ch not in '01':
            n[ch] = n.get(ch, 0) + 1
    return n


def assemble(e, f):
    """fields -> [first halfword, second halfword]"""
    left = dict(letters(e))
    hs = []
    for s in (e['p'], e['q']):
        h = 0
        for ch in s:
            if ch in '01':
                b = int(ch)
            else:
                left[ch] -= 1
                b = (f[ch] >> left[ch]) & 1
            h = h * 2 + b
        hs.append(h)
    return hs


def special(rng, k):
    """immediates worth more than a random one"""
    return rng.choice([0, 1, 2, (1 << k) - 1, (1 << k) - 2, 1 << (k - 1), (1 << (k - 1)) - 1, rng.getrandbits(k)])


class Cycle(object):
    """walks all values of a field in a random order, over and over, split among shards"""
    def __init__(self, n, shard, nshards):
        self.v = list(range(n))
        random.Random(n).shuffle(self.v)
        self.i = shard * n // nshards

    def next(self):
        self.i = (self.i + 1) % len(self.v)
        return self.v[self.i]


class Words(object):
    def __init__(self, args):
        self.A = args
        self.rng = args.rng
        self.cyc = {}

    def cycle(self, key, n):
        if key not in self.cyc:
            self.cyc[key] = Cycle(n, self.A.shard, self.A.nshards)
        return self.cyc[key].next()

    def fields(self, e, idx, badregs=0.3):
        rng = self.rng
        n = letters(e)
        f = {}
        for ch, k in n.items():
            if ch in 'dnmt':
                f[ch] = rng.randrange(1 << k)
                if k == 4 and f[ch] in (13, 15) and rng.random() >= badregs:
                    f[ch] = rng.randrange(13)
            elif ch == 'r' and k >= 8:                    # register lists: single bits, dense, sparse
                m = rng.random()
                f[ch] = self.cycle((idx, ch), 1 << k) if m < 0.6 else (1 << rng.randrange(k)) if m < 0.75 else \
                    ((1 << k) - 1) & ~(1 << rng.randrange(k)) if m < 0.87 else \
                    (1 << rng.randrange(k)) | (1 << rng.randrange(k)) if m < 0.95 else rng.choice([0, (1 << k) - 1])
            elif k <= 12:
                f[ch] = self.cycle((idx, ch), 1 << k) if rng.random() < 0.75 else \
                    special(rng, k) if k > 1 else rng.randrange(2)
            else:
                f[ch] = special(rng, k)
        # the same register in two roles
        if 'm' in f and 'd' in f and rng.random() < 0.15 and n['m'] == n['d']:
            f['m'] = f['d']
        if 'n' in f and 'm' in f and n['m'] == n['n'] and (rng.random() < 0.15 or (e['k'] == 'rev')):
            f['m'] = f['n']
        if e['k'] == 'bl' and rng.random() < 0.25:            # a short way, or to itself
            off = rng.choice([-4, -4, -2, 0, -6, -8, 2, rng.randrange(-64, 64, 2)])
            f.update(S=int(off < 0), i=(off >> 12) & 0x3ff, J=1, K=1, j=(off >> 1) & 0x7ff)
        if e['k'] in ('moviw', 'rsbw', 'cmpw') and rng.random() < 0.25:   # corners of the modified immediates
            f['i'] = rng.randrange(16) << 8 | rng.choice([0, 1, 0x7f, 0x80, 0xff])
        if e['k'] == 'mrs':
            f['s'] = rng.choice([0, 1, 2, 3, 5, 6, 7, 8, 9, 16, 17, 18, 19, 20])
        if e['k'] == 'msr':
            f['s'] = rng.choice([0, 1, 2, 3, 8, 9, 16, 17, 18, 19, 20])
            f['x'] = 2 if f['s'] > 3 else rng.randint(1, 3)
        return f


def address(rng):
    k = rng.random()
    if k < 0.25:
        return rng.choice([0, 2, 4, 6, 0xfffffffe, 0xfffffffc, 0xfffffffa, 0xfffffff8, 0x7ffffffe, 0x80000000, 0xffff, 0xfffe,
                           0x10000, 0x1fffe, 0xfffff000])
    return rng.getrandbits(32) & ~1
