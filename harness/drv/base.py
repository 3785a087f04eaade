"""Shared parts of the drivers (run by the interpreter that runs the library).

A driver exercises the real code through its public interface and writes what
it observed as chunks of events, one JSON array per line; it never judges."""
import json, os, random, signal, sys

REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True
if not os.path.exists(os.path.join(REPO, 'cmdis', '_version.py')):
    # a generated file that git ignores; nothing depends on its contents
    import types
    sys.modules['cmdis._version'] = types.ModuleType('cmdis._version')
    sys.modules['cmdis._version'].version = '0'


class Hang(BaseException):
    pass


def _on_alarm(signum, frame):
    raise Hang()


signal.signal(signal.SIGALRM, _on_alarm)


def guarded(fn, *args, **kw):
    """Run fn; returns (result, '') or (None, name of the exception)."""
    signal.setitimer(signal.ITIMER_REAL, kw.pop('limit', 20))
    try:
        return fn(*args), ''
    except Hang:
        return None, 'Hang'
    except KeyboardInterrupt:
        raise
    except BaseException as e:
        return None, type(e).__name__
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def limbs(v):
    return [(v >> 16) & 0xffff, v & 0xffff]


class Writer(object):
    """Writes chunks to OUT.<k>.ndjson, a new file every `roll` events; a file
    appears under its final name when it is complete."""
    def __init__(self, path, roll=12000):
        self.path, self.roll = path, roll
        self.k = 0
        self.f = None
        self.infile = 0
        self.chunk = []
        self.chunks = 0
        self.events = 0

    def add(self, ev):
        self.chunk.append(ev)

    def flush(self):
        if self.chunk:
            if self.f is None:
                self.f = open('%s.tmp' % self.path, 'w')
            self.f.write(json.dumps(self.chunk, separators=(',', ':')))
            self.f.write('\n')
            self.chunks += 1
            self.events += len(self.chunk)
            self.infile += len(self.chunk)
            self.chunk = []
            if self.infile >= self.roll:
                self.finish()

    def finish(self):
        if self.f is not None:
            self.f.close()
            os.rename('%s.tmp' % self.path, '%s.%d.ndjson' % (self.path, self.k))
            self.k += 1
            self.infile = 0
            self.f = None

    def close(self):
        self.flush()
        self.finish()
        return {'chunks': self.chunks, 'events': self.events}


class Args(object):
    """prop tier seed shard nshards outdir + environment"""
    def __init__(self):
        a = sys.argv[1:]
        self.prop, self.tier = a[0], a[1]
        self.seed, self.shard, self.nshards = int(a[2]), int(a[3]), int(a[4])
        self.out = a[5]
        self.work = os.path.dirname(self.out)
        self.rng = random.Random('%s/%s/%d/%d' % (self.prop, self.tier, self.seed, self.shard))
        self.thorough = self.tier == 'thorough'

    def table(self):
        return json.load(open(os.path.join(self.work, 'enc.json')))

    def scale(self, quick, thorough):
        """number of cases for this shard"""
        n = thorough if self.thorough else 3 * quick
        return n // self.nshards + (1 if self.shard < n % self.nshards else 0)

    def done(self, w, **extra):
        st = w.close()
        st.update(extra)
        with open(self.out + '.stat', 'w') as f:
            json.dump(st, f)


BOUND = sorted(set(
    [0, 1, 2, 3, 4, 5, 7, 8, 0x7e, 0x7f, 0x80, 0x81, 0xfe, 0xff, 0x100, 0x101, 0x7fff, 0x8000, 0x8001,
     0xfffe, 0xffff, 0x10000, 0x10001, 0x7ffffffe, 0x7fffffff, 0x80000000, 0x80000001, 0xfffffffc,
     0xfffffffd, 0xfffffffe, 0xffffffff, 0xaaaaaaaa, 0x55555555, 0x80808080, 0x7f7f7f7f, 0xff00ff00,
     0x00ff00ff, 0xffff0000, 0x0000ffff, 0x12345678, 0x89abcdef, 0x80000080, 0x00008000, 0x00800000]
    + [1 << i for i in range(32)] + [(1 << i) - 1 for i in range(33) if i < 33]
    + [0xffffffff & ~(1 << i) for i in range(32)]))
BOUND = [b & 0xffffffff for b in BOUND]


def value(rng):
    k = rng.random()
    if k < 0.45:
        return rng.choice(BOUND)
    if k < 0.55:
        return (rng.choice(BOUND) + rng.randint(-3, 3)) & 0xffffffff
    if k < 0.65:
        return rng.getrandbits(rng.randint(1, 32))
    return rng.getrandbits(32)


def related(rng, x):
    """a second operand that makes carries, borrows, zero and overflow happen"""
    k = rng.randint(0, 9)
    if k == 0: return x
    if k == 1: return (-x) & 0xffffffff
    if k == 2: return ~x & 0xffffffff
    if k == 3: return (x + 1) & 0xffffffff
    if k == 4: return (x - 1) & 0xffffffff
    if k == 5: return (-x - 1 + rng.randint(-2, 2)) & 0xffffffff
    if k == 6: return (0x80000000 - x) & 0xffffffff
    if k == 7: return (0x7fffffff - x + rng.randint(0, 1)) & 0xffffffff
    return value(rng)
