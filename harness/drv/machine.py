"""Machines the instructions run on, observed completely."""
from base import limbs, guarded
from cmdis.model import CpuModel, CpuModelDelegate, CpuMode
from cmdis.mock_cpu import MockCpuModelDelegate
from cmdis.disasm import decoder, Disassembler
from cmdis.formatter import Formatter
from cmdis.decoder import (UndefinedInstructionError, UnpredictableError)
import cmdis.bitstring

# model register number -> delegate register number
REGNO = list(range(0, 19)) + [-1, -2, -3, -4]
INDEX = dict((n, i) for i, n in enumerate(REGNO))
M32 = 0xffffffff


class BadAccess(Exception):
    pass


class FlatDelegate(CpuModelDelegate):
    """23 independent 32-bit cells and 4 GB of bytes with known background values."""
    def __init__(self, seed):
        self.seed = seed
        self.regs = dict((n, 0) for n in REGNO)
        self.mem = {}
        self.reads = []
        self.writes = []

    def read_register(self, reg):
        return self.regs[reg]

    def write_register(self, reg, v):
        if reg not in self.regs or type(v) is bool or not isinstance(v, int) or not 0 <= v <= M32:
            raise BadAccess()
        self.regs[reg] = v

    def byte(self, a):
        b = self.mem.get(a)
        if b is None:
            lo, hi = a & 0xffff, a >> 16
            b = (lo * 37 + hi * 101 + (lo >> 8) * 11 + self.seed * 59) % 256
        return b

    def read_memory(self, addr, size=32):
        if not isinstance(addr, int) or not 0 <= addr <= M32 or size not in (8, 16, 32):
            raise BadAccess()
        self.reads.append(limbs(addr) + [size // 8])
        return sum(self.byte((addr + i) & M32) << (8 * i) for i in range(size // 8))

    def write_memory(self, addr, value, size=32):
        if not isinstance(addr, int) or not 0 <= addr <= M32 or size not in (8, 16, 32) or not isinstance(value, int):
            raise BadAccess()
        self.writes.append(limbs(addr) + [size // 8])
        for i in range(size // 8):
            self.mem[(addr + i) & M32] = (value >> (8 * i)) & 0xff

    def write_memory_block(self, addr, data):
        for i, b in enumerate(data):
            self.write_memory((addr + i) & M32, b, 8)

    def read_memory_block(self, addr, length):
        return bytearray(self.read_memory((addr + i) & M32, 8) for i in range(length))


class Cpu(CpuModel):
    """CpuModel with configurable IT state and extensions."""
    cfg = (0, 0, 0)

    @property
    def in_it_block(self):
        return bool(self.cfg[0])

    @property
    def has_dsp_ext(self):
        return bool(self.cfg[1])

    @property
    def has_fp_ext(self):
        return bool(self.cfg[2])


class Flat(object):
    kind = 'flat'

    def __init__(self, w, seed, cfg, regs):
        self.w = w
        self.d = FlatDelegate(seed)
        self.cpu = Cpu()
        self.cpu.cfg = cfg
        self.cpu.delegate = self.d
        for i, v in enumerate(regs):
            self.d.regs[REGNO[i]] = v
        w.add(['R', 'flat', seed, cfg[0], cfg[1], cfg[2], [limbs(v) for v in regs], []])

    def reg(self, i):
        return self.d.regs[REGNO[i]]

    def execute(self, ins, h1, h2, pokes=(), mpokes=()):
        """ins: a decoded instruction.  Presets registers and bytes, executes, records."""
        d = self.d
        for i, v in pokes:
            d.regs[REGNO[i]] = v
        for a, b in mpokes:
            d.mem[a] = b
        before = dict(d.regs)
        d.reads, d.writes = [], []
        mem0 = dict(d.mem)
        _, exc = guarded(ins.execute, self.cpu)
        rdiff = [[INDEX[n]] + limbs(v) for n, v in d.regs.items() if v != before[n]]
        touched = set(k for k, v in d.mem.items() if k not in mem0 or mem0[k] != v)
        for a in [x for x in d.writes]:
            for i in range(a[2]):
                touched.add(((a[0] << 16) + a[1] + i) & M32)
        mdiff = [limbs(a) + [d.mem[a]] for a in sorted(touched)]
        self.w.add(['X', h1, h2, 4, [[i] + limbs(v) for i, v in pokes], [limbs(a) + [b] for a, b in mpokes],
                    exc, rdiff, mdiff, d.reads, d.writes])
        return exc


class Mock(object):
    """The library's own mock CPU; its memory regions are read back after every step."""
    kind = 'mock'

    def __init__(self, w, regions, cfg=(0, 0, 0)):
        self.w = w
        self.d = MockCpuModelDelegate()
        self.cpu = Cpu()
        self.cpu.cfg = cfg
        self.cpu.delegate = self.d
        self.regions = regions
        for a, n in regions:
            self.d.add_memory(a, n)
        w.add(['R', 'mock', 0, cfg[0], cfg[1], cfg[2], [limbs(v) for v in self.dump()],
               [limbs(a) + [n] for a, n in regions]])

    def dump(self):
        return [self.d.read_register(n) for n in REGNO]

    def image(self):
        return [bytes(bytearray(self.d.read_memory_block(a, n))) for a, n in self.regions]

    def execute(self, ins, h1, h2, before=None, image=None):
        if before is None:
            before = self.dump()
        if image is None:
            image = self.image()
        _, exc = guarded(ins.execute, self.cpu)
        after = self.dump()
        image2 = self.image()
        rdiff = [[i] + limbs(v) for i, v in enumerate(after) if v != before[i]]
        mdiff = []
        for (a, n), x, y in zip(self.regions, image, image2):
            if x != y:
                mdiff += [limbs(a + i) + [y[i]] for i in range(min(len(x), len(y))) if x[i] != y[i]]
                if len(x) != len(y):
                    exc = exc or 'RegionResized'
        self.w.add(['X', h1, h2, 4, [], [], exc, rdiff, mdiff, [], []])
        return exc


def code_bytes(h1, h2, size=4):
    return bytearray([h1 & 0xff, h1 >> 8, h2 & 0xff, h2 >> 8])[:size]


def is32(h1):
    return (h1 >> 11) in (29, 30, 31)


def decode(data, addr=0):
    return decoder.decode(data, addr)


def outcome(data, addr):
    """(status, instruction)"""
    ins, exc = guarded(decode, data, addr)
    if exc == '':
        return 'ok', ins
    return {'UndefinedInstructionError': 'undef', 'UnpredictableError': 'unpred'}.get(exc, exc), None
