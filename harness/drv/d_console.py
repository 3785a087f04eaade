"""C26, C27: console sessions."""
import io, shutil, tempfile
from progs import *

w = Writer(A.out)
import cmdis

SRC = os.path.join(REPO, 'cmdis', '__main__.py')


def load():
    """the console as a module; the source is Python 2, which 2to3 translates"""
    text = open(SRC, encoding='utf-8').read()
    try:
        code = compile(text, SRC, 'exec', dont_inherit=True)
    except SyntaxError:
        from lib2to3 import refactor
        tool = refactor.RefactoringTool(refactor.get_fixers_from_package('lib2to3.fixes'))
        text = str(tool.refactor_string(text + '\n', SRC))
        code = compile(text, SRC, 'exec', dont_inherit=True)
    m = type(sys)('cmdis_console')
    m.__file__ = SRC
    exec(code, m.__dict__)
    return m


console = load()
scratch = tempfile.mkdtemp(dir=A.work)
FLASH = 0x10000
RAM = 0x1fff8000
counts = {}


def lines_of(text):
    return [l for l in (' '.join(l.split()) for l in text.split('\n')) if l]


def session(image, lines, file=True):
    path = os.path.join(scratch, 'image.bin')
    if file:
        with open(path, 'wb') as f:
            f.write(bytes(bytearray(image)))
    saved = sys.argv, sys.stdin, sys.stdout, sys.stderr
    out = io.StringIO()
    opts = [] if rng.random() < 0.7 else [rng.choice(['-d', '--debug']), rng.choice(['error', 'critical', 'warning'])]
    sys.argv = ['cmdis'] + ([path] + opts if rng.random() < 0.5 else opts + [path]) if file else ['cmdis'] + opts
    sys.stdin = io.StringIO(''.join(l + '\n' for l in lines))
    sys.stdout = out
    sys.stderr = io.StringIO()

    def main():
        try:
            return '', console.main()              # as in sys.exit(main())
        except SystemExit as e:
            return '', e.code
    try:
        got, exc = guarded(main, limit=120)
        exc, code = got if not exc else (exc, -1)
    finally:
        sys.argv, sys.stdin, sys.stdout, sys.stderr = saved
    parts = out.getvalue().split(console_prompt())
    first = lines_of(parts[0])
    if exc:
        first = first if len(parts) > 1 else first + ['<%s>' % exc]
    w.add(['S', len(image), [[i, b] for i, b in enumerate(image) if b], first])
    for k, l in enumerate(lines):
        got = lines_of(parts[k + 1]) if k + 1 < len(parts) else ['<no prompt>' + exc]
        w.add(['L', list(l), got])
    w.add(['X', 0 if code is None else code if type(code) is int else -1])
    w.flush()


def console_prompt():
    return '>>> '


# -------------------------------------------------------------------- writing
def cased(t):
    k = rng.random()
    return t if k < 0.75 else t.upper() if k < 0.9 else ''.join(rng.choice([c, c.upper()]) for c in t)


def num(v, neg=True):
    s = ''
    if v < 0:
        s, v = '-', -v
    elif rng.random() < 0.04:
        s = '+'
    k = rng.random()
    t = '%d' % v if k < 0.4 else '0x%x' % v if k < 0.8 else '0b' + bin(v)[2:] if k < 0.88 and v < 1 << 20 else '0o%o' % v if k < 0.94 \
        else '0x%08x' % v
    if rng.random() < 0.1 and len(t) > 3:
        for _ in range(rng.choice([1, 1, 2, 3, 5])):
            i = rng.randrange(3, len(t) + 1)
            t = t[:i] + '_' + t[i:]
    return s + cased(t)


REGN = ['r%d' % i for i in range(16)] + ['sp', 'lr', 'pc', 'xpsr', 'msp', 'psp', 'control', 'primask', 'basepri', 'faultmask', 'fpscr',
                                          's0', 's1', 's15', 's31']


class Typist(object):
    def __init__(self, image, ram):
        self.image, self.ram = image, ram
        self.ptr = {}                       # registers that hold an address of ours
        self.touched = [0]

    def addr(self, k=None):
        k = rng.random() if k is None else k
        if k < 0.35:
            a = RAM + rng.choice([0, 4, rng.randrange(64), rng.randrange(self.ram), self.ram - rng.randrange(1, 9)])
        elif k < 0.7:
            a = rng.choice([0, 4, rng.randrange(max(8, len(self.image))), rng.randrange(FLASH), FLASH - rng.randrange(1, 9)])
        elif k < 0.95:
            a = rng.choice(self.touched) + rng.choice([0, 0, 1, 2, 3, -1])
            a = max(0, a)
            if a == FLASH or a == RAM - 1:
                a = 0
        else:
            a = rng.choice([0x40000000, 0xe000ed00, 0x10000000 - 4, 0x60000000, 0xfffffffc])
        if a >= RAM + self.ram and a < 0x40000000:
            a = RAM
        self.touched = (self.touched + [a])[-6:]
        return a

    def name(self):
        return cased(rng.choice(REGN))

    def address(self):
        """an argument that is an address"""
        k = rng.random()
        if k < 0.6 or not self.ptr:
            return num(self.addr())
        r = rng.choice(sorted(self.ptr))
        if k < 0.8:
            return cased(r)
        v = self.ptr[r]
        if k < 0.9 or not (0 <= v < FLASH - 64 or RAM <= v < RAM + self.ram - 64):
            return cased(r)
        return cased(r)

    def pointee(self):
        """an argument in brackets"""
        off = rng.choice([0, 0, 4, 8, -4, -4, -8, 1, 16, 12, -1, -64, 0x100])
        if self.ptr and rng.random() < 0.5:
            b = cased(rng.choice(sorted(self.ptr)))
        elif rng.random() < 0.3:
            b = cased(rng.choice(['sp', 'sp', 'msp', 'psp', 'pc', 'r13', 'r15', 'lr']))
        else:
            b = num(rng.choice([rng.randrange(4, 64), RAM + 4 + rng.randrange(64), rng.choice(self.touched)]))
        return '[' + b + (',' + num(off) if off or rng.random() < 0.3 else '') + ']'

    def value(self, bits=32):
        k = rng.random()
        v = value(rng) if k < 0.5 else self.addr(0) if k < 0.6 else rng.getrandbits(32)
        return v & ((1 << bits) - 1)

    def count(self, n):
        return n * rng.choice([0, 1, 1, 2, 3, 4, 5, 8, 9, 16, 17]) if rng.random() < 0.97 else n * rng.choice([33, 64, 65, 100, 128, 130, 300])

    # -------------------------------------------------------------- commands
    def wreg(self):
        r = rng.choice(REGN) if rng.random() < 0.6 else rng.choice(['r0', 'r1', 'r2', 'r3', 'sp', 'msp', 'psp', 'pc', 'lr', 'control'])
        k = rng.random()
        if k < 0.25 and r[0] == 'r' and r not in ('r13', 'r15'):
            v = self.addr(rng.random() * 0.7)
            self.ptr[r] = v
            return 'wreg %s %s' % (cased(r), num(v))
        self.ptr.pop(r, None)
        if r in ('r14', 'lr'):
            self.ptr.pop('r14', None)
        if k < 0.65:
            v = self.value()
            if r == 'control':
                v = rng.randrange(4)
            if rng.random() < 0.1:
                v = rng.choice([-1, -2, -v, v + (1 << 32), 1 << 32])
            a = num(v)
        elif k < 0.82:
            a = self.name()
        else:
            a = self.pointee()
        return 'wreg %s %s' % (cased(r), a)

    def read(self):
        n, c = rng.choice([(1, 'read'), (1, 'read8'), (1, 'r'), (1, 'rb'), (2, 'read16'), (2, 'r16'), (2, 'rh'), (4, 'read32'), (4, 'r32'),
                           (4, 'rw')])
        a = self.pointee() if rng.random() < 0.1 else self.address()
        t = cased(c) + ' ' + a
        if rng.random() < 0.7:
            t += ' ' + num(self.count(n))
        return t

    def write(self):
        n, c = rng.choice([(1, 'write'), (1, 'write8'), (1, 'w'), (1, 'wb'), (2, 'write16'), (2, 'w16'), (2, 'wh'), (4, 'write32'), (4, 'w32'),
                           (4, 'ww')])
        a = self.pointee() if rng.random() < 0.06 else self.address()
        d = []
        if n == 4 and rng.random() < 0.2:                   # nothing but registers and memory
            which = rng.choice([self.pointee, self.name, lambda: rng.choice([self.pointee, self.name])()])
            return cased(c) + ' ' + a + ' ' + ' '.join(which() for _ in range(rng.randint(2, 5)))
        for _ in range(rng.choice([1, 1, 2, 3, 4, 8]) if rng.random() < 0.97 else rng.choice([15, 16, 17, 33, 70, 260 // n])):
            if n == 4 and rng.random() < 0.25:
                d.append(self.name() if rng.random() < 0.6 else self.pointee())
            elif n > 1 and rng.random() < 0.12:
                v = self.value()
                d.append(num(rng.choice([-1, -2, -v, v + (1 << 32), v, (1 << 31) - v, rng.getrandbits(40)])))
            else:
                d.append(num(self.value(8 * n)))
        return cased(c) + ' ' + a + ' ' + ' '.join(d)

    def reg(self):
        k = rng.random()
        return 'reg' if k < 0.25 else self.name() if k < 0.6 else cased('reg') + ' ' + self.name()

    def rejected(self):
        bad = rng.choice(['r16', 'rx', '0x', '12z', '0b2', '1.5', '0x1g', 'zz', '[r1,x]', '[q]', '--3', 's32', '0o8', '9a', '0xx1'])
        notnum = rng.choice(['0x', '12z', '0b2', '1.5', '0x1g', 'zz', '[r1,x]', '[q]', '--3', 's32', '0o8', '9a', '[0x10,1,2]', '[r1,]'])
        return rng.choice(['foo', 'rd 0 4', 'wregs r0 1', 'wreg', 'wreg r0', 'wreg %s 5' % rng.choice(['r16', 'foo', 's32', 'apsr', '0']),
                           'wreg r1 ' + notnum, 'reg ' + rng.choice(['r16', 'foo', 's32', '5']), 'read ' + notnum, 'read32 0 ' + notnum,
                           'write8 ' + notnum + ' 1', 'write8 %s 1 %s' % (num(RAM), notnum), 'write32 %s %s' % (num(RAM), notnum),
                           'write16', 'write16 %s' % num(RAM), 'read16', 'xyzzy', bad + ' 1', 'log', 'log loud', 'status'])

    def python(self):
        k = rng.random()
        if k < 0.1:
            t = num(rng.getrandbits(31), neg=False).replace('_', '')
        elif k < 0.25:
            t = "cpu.read_register('%s').unsigned" % cased(rng.choice(REGN))
        elif k < 0.35:
            t = 'cpu.%s.unsigned' % rng.choice(['pc', 'lr', 'sp', 'msp', 'psp', 'control', 'xpsr'])
        elif k < 0.45:
            t = 'cpu.r[%d].unsigned' % rng.randrange(16)
        elif k < 0.6:
            t = 'cpu.read%d(%s).unsigned' % (rng.choice([8, 16, 32]), hex(self.addr()))
        elif k < 0.72:
            r = rng.choice(REGN)
            if r != 'control':
                self.ptr.pop(r, None)
                self.ptr.pop('r14', None)
                t = "cpu.write_register('%s',%s%s)" % (cased(r), rng.choice(['', ' ']), rng.choice(['%d', '0x%x', '-%d']) % self.value())
            else:
                t = "cpu.write_register('control', %d)" % rng.randrange(4)
        elif k < 0.88:
            t = 'cpu.write%d(%s,%s%s)' % (rng.choice([8, 16, 32]), hex(self.addr()), rng.choice(['', ' ']), hex(self.value()))
        else:
            t = rng.choice(['', '1 +', 'cpu.', 'foo', 'cpu.nothing', 'cpu.r[16]', 'cpu.r[99]', 'cpu.read_register(', 'cpu.pc = 1', '1/0',
                            "int('x')"])
        return '$' + rng.choice(['', '', ' ']) + t

    def quiet(self):
        return rng.choice(['info', 'i', 'map', 'help', '?', 'help reg', 'log error'])

    def step(self):
        return cased(rng.choice(['step', 's', 's']))

    def disasm(self):
        k = rng.random()
        c = cased(rng.choice(['disasm', 'd']))
        opt = rng.choice(['', '', '', '-c', '--center'])
        if k < 0.2:
            return (c + ' ' + opt).strip()
        a = rng.choice(['pc', 'PC', 'lr', 'r0'] + [num(2 * rng.randrange(max(8, len(self.image) // 2)) + rng.choice([0, 0, 1]))] * 4 +
                       [num(self.addr())])
        n = num(rng.choice([0, 1, 2, 3, 4, 6, 8, 10, 16, 20, 30])) if rng.random() < 0.7 else ''
        parts = [x for x in ([opt, a, n] if rng.random() < 0.6 else [a, opt, n] if rng.random() < 0.5 else [a, n, opt]) if x]
        return c + ' ' + ' '.join(parts)

    def jump(self):
        k = rng.random()
        if k < 0.6:
            v = 2 * rng.randrange(max(8, len(self.image) // 2)) + rng.choice([0, 0, 1])
        elif k < 0.8:
            v = RAM + 2 * rng.randrange(16)
        else:
            v = rng.choice([FLASH - 2, FLASH - 4, FLASH - 6, RAM + self.ram - 2 & ~1, RAM + self.ram - 4 & ~1, 0x40000000]) + \
                rng.choice([0, 1])
            return 'wreg pc ' + num(v) + rng.choice(['', '; step', ';s', ';s;s'])
        return 'wreg pc ' + num(v)

    def patch(self):
        k = rng.random()
        a = 2 * rng.randrange(max(8, len(self.image) // 2)) if k < 0.5 else RAM + 2 * rng.randrange(16) if k < 0.8 else \
            rng.choice([FLASH - 2, FLASH - 4])
        hs = [rng.choice([0xf000, 0xe92d, 0xf8d0])] if a == FLASH - 2 and rng.random() < 0.5 else []
        for _ in range(rng.randint(0 if hs else 1, 3)):
            for it in rand_body() or [[0xbf00]]:
                hs += it
        if rng.random() < 0.15:
            hs = [rng.choice([0xde00, 0xf000, 0xb100, 0xb400, 0xbf00, 0xe800])]
        return 'write16 %s %s' % (num(a), ' '.join(num(h) for h in hs))

    def corner(self):
        """instructions worth a visit: branches to themselves, wide ones across a boundary"""
        edges = [b for b in (0x100, 0x1000, 0x8000, 0x10000, 0x20000, 0x30000, 0x40000, 0x80000) if b + 8 <= self.ram]
        eflash = [b for b in (0x80, 0x100, 0x1000, 0x8000, 0x10000) if b + 8 <= FLASH]
        a = rng.choice([RAM + rng.choice(edges), RAM + max(edges), rng.choice(eflash)]) - rng.choice([2, 2, 2, 4, 6]) \
            if rng.random() < 0.7 else self.addr(rng.random() * 0.6) & ~1
        wide = rng.choice([[0xf7ff, 0xfffe], [0xf7ff, 0xfffe], [0xf000, 0xf800 | rng.randrange(16)], [0xf3ef, 0x8008], [0xf3bf, 0x8f5f],
                           [0xf380, 0x8810], [0xf000, 0xd000], [0xf7ff, 0xfffc]])
        hs = wide if rng.random() < 0.7 else [rng.choice([0xe7fe, 0xd0fe, 0xd1fe, 0x4638, 0xe7fd])]
        self.touched = (self.touched + [a])[-6:]
        return 'write16 %s %s;wreg pc %s%s' % (num(a), ' '.join(num(h) for h in hs + rng.choice([[], [0xbf00]])), num(a),
                                               rng.choice([';s', ';s', ';s;s', ';d', ';s;d', ';d pc 8;s', ';disasm -c;s']))

    def vector(self):
        k = rng.random()
        v = rng.choice([RAM + 4 * rng.randrange(64), RAM + self.ram, 8, rng.randrange(len(self.image) + 4) | 1, 0x40000001, 0, 4, FLASH,
                        2 * rng.randrange(max(8, len(self.image) // 2)) | 1])
        return 'write32 %d %s' % (rng.choice([0, 4]), num(v)) + ('; reset' if k < 0.6 else '')


M26 = [('wreg', 10), ('read', 10), ('write', 10), ('reg', 9), ('rejected', 5), ('quiet', 1), ('empty', 4),
       ('python', 5)]
M27 = [('wreg', 5), ('read', 3), ('write', 3), ('reg', 5), ('rejected', 1), ('empty', 5), ('step', 22), ('disasm', 10), ('jump', 5), ('patch', 4),
       ('corner', 3), ('vector', 2), ('reset', 2)]
MIX = [k for k, n in (M26 if A.prop == 'C26' else M27) for _ in range(n)]


def image():
    if A.prop == 'C26' and rng.random() < 0.6:
        return [rng.choice([0, 0, rng.randrange(256)]) for _ in range(rng.choice([0, 1, 3, 4, 7, 8, 64, 101]))]
    p = program()
    code, at = p.build(8)
    out = []
    k = rng.random()
    sp = RAM + rng.choice([0x400, 0x1000, 0x10000, 0x8000, 0x10004, 0x10103, 0x20000, 64, 0x40000, 0x40404, 0x80000, 0xfff00]) if k < 0.8 else \
        rng.choice([0, 8, 0x1000, RAM, RAM + 2, 0x10000000])
    k = rng.random()
    pc = 8 + rng.choice([0, 1, 1, 1]) if k < 0.8 else rng.choice([0, 0x40000001, 0x1ffffff1, RAM | 1, 8 + 2 * rng.randrange(len(code)) | 1])
    for v in (sp, pc):
        out += [v >> 8 * i & 255 for i in range(4)]
    for h in code:
        out += [h & 255, h >> 8]
    if rng.random() < 0.03:
        out += [0] * (0x10000 - len(out)) + [rng.randrange(256) for _ in range(rng.randint(1, 64))]
    return out


def run():
    global FLASH
    im = image()
    FLASH = max(0x10000, len(im))
    sp = sum(b << 8 * i for i, b in enumerate(im[:4]))
    if sp >= RAM + 0x100000:
        im[3] = 0
        sp = sum(b << 8 * i for i, b in enumerate(im[:4]))
    ram = max(sp - RAM, 0x10000)
    T = Typist(im, ram)
    lines = []
    if A.prop == 'C27':
        for r in (0, 1, 7):
            lines.append('wreg r%d %s' % (r, num(RAM + 4 * rng.randrange(32))))
        lines.append('wreg r6 %s' % num(rng.randrange(32)))
        if rng.random() < 0.5:
            lines.append('write32 %s %s' % (num(RAM), ' '.join(num(T.value()) for _ in range(8))))
    for _ in range(rng.choice([12, 30, 60])):
        cmds = []
        for _ in range(rng.choice([1, 1, 1, 1, 1, 2, 3]) if rng.random() < 0.96 else rng.randint(4, 9)):
            k = rng.choice(MIX)
            counts[k] = counts.get(k, 0) + 1
            if k == 'empty':
                if not cmds:
                    break
                continue
            cmds.append('reset' if k == 'reset' else getattr(T, k)())
        t = ''
        for c in cmds:
            if c[0] != '$':
                c = c.replace(' ', rng.choice([' ', ' ', ' ', '  ', ' \t']))
            c = rng.choice(['', '', '', ' ']) + c + rng.choice(['', '', '', ' '])
            t += (';' if t else '') + c
        if not cmds:
            t = rng.choice(['', '', ' ', '\t'])
        elif rng.random() < 0.02:
            t = rng.choice([';', ';;', ' ; ', '; ;'])
            lines.append(t)
            t = rng.choice(['', t, ' '])
        elif rng.random() < 0.03:
            t = rng.choice([';' + t, t + ';', t.replace(';', ';;'), t + ' ; ;'])
        lines.append(t)
    # what is there at the end
    lines += ['reg', 'reg s0;s31;fpscr'] + ['read8 %s 32' % num(max(0, a & ~15)) for a in sorted(set(T.touched)) if a < 0x20000 or a >= RAM and a < RAM + ram]
    lines += ['read32 %s 128' % num(RAM), 'read32 %s 64' % num(0)]
    if rng.random() < 0.3:
        lines += [rng.choice(['exit', 'quit', 'reg r0; quit; reg r1', 'quit 1'])]
        if rng.random() < 0.5:
            lines += ['reg r0', 'quit'][:rng.randint(1, 2)]
    session(im, lines, file=bool(im) or rng.random() < 0.5)


try:
    while w.events < A.scale(12000, 200000):
        run()
finally:
    shutil.rmtree(scratch, ignore_errors=True)
A.done(w, commands=counts)
