"""Shared machinery of the checks: value generators, delegates with recorders, text parsing,
and the lock-step comparison of one executed instruction against the model in arm.py."""
import random, re, sys, traceback
import arm
from arm import M32, State, Insn, UNDEF, UNPRED


class CM(object):
    """Lazily bound namespace of the code under test."""
    pass


cm = CM()


def bind(src):
    sys.path.insert(0, src)
    import cmdis, cmdis.disasm, cmdis.decoder, cmdis.bitstring, cmdis.formatter, cmdis.model, cmdis.mock_cpu
    import cmdis.helpers, cmdis.registers, cmdis.utilities
    assert cmdis.__file__.startswith(src), cmdis.__file__
    cm.cmdis = cmdis
    cm.decoder = cmdis.disasm.decoder
    cm.Disassembler = cmdis.disasm.Disassembler
    cm.Undefined = cmdis.decoder.UndefinedInstructionError
    cm.Unpredictable = cmdis.decoder.UnpredictableError
    cm.bitstring = cmdis.bitstring.bitstring
    cm.bs = cmdis.bitstring
    cm.formatter = cmdis.formatter
    cm.Formatter = cmdis.formatter.Formatter
    cm.CpuModel = cmdis.model.CpuModel
    cm.CpuMode = cmdis.model.CpuMode
    cm.Delegate = cmdis.model.CpuModelDelegate
    cm.Mock = cmdis.mock_cpu.MockCpuModelDelegate
    cm.helpers = cmdis.helpers
    cm.registers = cmdis.registers
    cm.utilities = cmdis.utilities
    cm.model = cmdis.model
    cm.dmod = cmdis.decoder
    cm.REG = cmdis.registers.CORE_REGISTER

    class ConfCpu(cmdis.model.CpuModel):
        """The documented extension points of CpuModel, made settable."""
        it = dsp = fp = False
        in_it_block = property(lambda s: s.it)
        has_dsp_ext = property(lambda s: s.dsp)
        has_fp_ext = property(lambda s: s.fp)
    cm.ConfCpu = ConfCpu
    return cm


class Violation(Exception):
    pass


class Stop(Exception):
    """The time guard ran out; what was observed so far counts."""


# ------------------------------------------------------------------ values

CORNERS = [0, 1, 2, 3, 4, 7, 8, 0xf, 0x1f, 0x20, 0x21, 0x3f, 0x40, 0x7f, 0x80, 0xff, 0x100, 0x101, 0x7fff, 0x8000,
           0xffff, 0x10000, 0x7ffffffe, 0x7fffffff, 0x80000000, 0x80000001, 0xfffffffe, 0xffffffff, 0xfffffffc,
           0x55555555, 0xaaaaaaaa, 0xff00ff00, 0x00ff00ff, 0x80008000, 0x01020304, 0x8081ff7f]
# Where the architecture's memory map has something: edges of its areas, alias and system regions, exception returns.
PLACES = [0x08000000, 0x10000000, 0x1fff0000, 0x20000000, 0x20100000, 0x22000000, 0x24000000, 0x40000000, 0x40100000,
          0x42000000, 0x44000000, 0x60000000, 0xa0000000, 0xe0000000, 0xe000e000, 0xe000e010, 0xe000e100, 0xe000ed00,
          0xe000ed08, 0xe000ef00, 0xe000f000, 0xe0040000, 0xe00ff000, 0xe0100000, 0xf0000000, 0xfffffff1, 0xfffffff9,
          0xfffffffd, 0xffffffe1, 0xffffffe9, 0xffffffed]


def place(rng): return (rng.choice(PLACES) + rng.choice((0, 0, 1, 4, -1, -4, rng.randrange(-64, 256)))) & M32


def value(rng):
    k = rng.random()
    if k < .30: return rng.choice(CORNERS)
    if k < .60: return rng.getrandbits(32)
    if k < .70: return 1 << rng.randrange(32)
    if k < .78: return M32 ^ (1 << rng.randrange(32))
    if k < .84: return (1 << rng.randrange(33)) - 1
    if k < .90: return (M32 << rng.randrange(33)) & M32
    if k < .94: return rng.getrandbits(8)
    if k < .97: return place(rng)
    return (-rng.getrandbits(8)) & M32


def shift_amount(rng):
    k = rng.random()
    if k < .5: return rng.choice([0, 1, 2, 7, 8, 15, 16, 31, 32, 33, 63, 64, 65, 127, 128, 254, 255])
    if k < .7: return rng.randrange(34)
    if k < .85: return rng.getrandbits(8)
    return None


def even_pc(rng):
    k = rng.random()
    if k < .2: return rng.choice([0, 2, 4, 6, 8, 0xfffffffe, 0xfffffffc, 0xfffffffa, 0xfffffff8, 0x7ffffffe, 0x80000000,
                                  0x1000, 0x1002, 0x20000002])
    if k < .25: return place(rng) & ~1
    if k < .34:         # around a power of two, or the end of a 4 KiB page
        a = 1 << rng.randrange(8, 33) if rng.random() < .5 else rng.getrandbits(20) << 12
        return (a + 2 * rng.randrange(-4, 3)) & M32
    if k < .6: return rng.getrandbits(16) & ~1
    return rng.getrandbits(32) & ~1


# ------------------------------------------------------------------ encodings

# 32-bit templates: letters are free bits; d n m t are register fields.
T32 = """
rsb.w    11110i01110snnnn 0iiiddddiiiiiiii
mul      111110110000nnnn 1111dddd0000mmmm
adr.w-   11110i1010101111 0iiiddddiiiiiiii
adr.w+   11110i1000001111 0iiiddddiiiiiiii
sxth.w   1111101000001111 1111dddd10rrmmmm
sxtb.w   1111101001001111 1111dddd10rrmmmm
uxth.w   1111101000011111 1111dddd10rrmmmm
uxtb.w   1111101001011111 1111dddd10rrmmmm
rev.w    111110101001mmmm 1111dddd1000mmmm
rev16.w  111110101001mmmm 1111dddd1001mmmm
revsh.w  111110101001mmmm 1111dddd1011mmmm
mov.w    11101010010s1111 0000dddd0000mmmm
mov.wi   11110i00010s1111 0iiiddddiiiiiiii
movw     11110i100100iiii 0iiiddddiiiiiiii
mvn.w    11101010011s1111 0iiiddddiittmmmm
cmp.w    11110i011011nnnn 0iii1111iiiiiiii
cmn      11110i010001nnnn 0iii1111iiiiiiii
tst.w    111010100001nnnn 0iii1111iissmmmm
bl       11110iiiiiiiiiii 11i1iiiiiiiiiiii
ldrb.w   111110000001nnnn tttt000000iimmmm
ldrh.w   111110000011nnnn tttt000000iimmmm
ldr.w    111110000101nnnn tttt000000iimmmm
ldrsb.w  111110010001nnnn tttt000000iimmmm
ldrsh.w  111110010011nnnn tttt000000iimmmm
strb.w   111110000000nnnn tttt000000iimmmm
strh.w   111110000010nnnn tttt000000iimmmm
str.w    111110000100nnnn tttt000000iimmmm
ldr.wl   11111000u1011111 ttttiiiiiiiiiiii
ldrh.wl  11111000u0111111 ttttiiiiiiiiiiii
ldrb.wl  11111000u0011111 ttttiiiiiiiiiiii
ldrsh.wl 11111001u0111111 ttttiiiiiiiiiiii
ldrsb.wl 11111001u0011111 ttttiiiiiiiiiiii
push.w   1110100100101101 0i0iiiiiiiiiiiii
push.w1  1111100001001101 tttt110100000100
pop.w    1110100010111101 ii0iiiiiiiiiiiii
pop.w1   1111100001011101 tttt101100000100
stm.w    1110100010w0nnnn 0i0iiiiiiiiiiiii
ldm.w    1110100010w1nnnn ii0iiiiiiiiiiiii
mrs      1111001111101111 1000ddddyyyyyyyy
msr      111100111000nnnn 1000ii00yyyyyyyy
dsb      1111001110111111 100011110100iiii
dmb      1111001110111111 100011110101iiii
isb      1111001110111111 100011110110iiii
udf.w    111101111111iiii 1010iiiiiiiiiiii
"""
TEMPLATES = [(l.split()[0], l.split()[1] + l.split()[2]) for l in T32.strip().splitlines()]
SYS = sorted(arm.SYSREGS)


def fill(rng, pat, regs=None):
    """A 32-bit word (halfword 2 in the high half) for a template."""
    mode = rng.random()
    fields = {}
    pool = regs or [rng.randrange(16) for _ in range(3)]
    for c in 'dnmt':
        fields[c] = rng.choice(pool) if rng.random() < .6 else rng.randrange(16 if rng.random() < .2 else 13)
    fields['y'] = rng.choice(SYS) if rng.random() < .9 else rng.getrandbits(8)
    left = dict((c, pat.count(c)) for c in set(pat))
    for c in 'dnm':
        if left.get(c, 0) > 4:
            left[c] = 4     # the field occurs twice (rev)
    pos = dict(left)
    v = 0
    pm = {'d': 4, 'n': 4, 'm': 4, 't': 4, 'y': 8}
    seen = {}
    for c in pat:
        v <<= 1
        if c == '1':
            v |= 1
        elif c == '0':
            pass
        elif c in fields and (pat.count(c) % pm[c] == 0):
            k = seen.get(c, 0)
            v |= (fields[c] >> (pm[c] - 1 - k % pm[c])) & 1
            seen[c] = k + 1
        else:
            if mode < .6: b = rng.random() < .5
            elif mode < .75: b = rng.random() < .15
            elif mode < .9: b = rng.random() < .85
            elif mode < .95: b = False
            else: b = True
            v |= int(b)
    h1, h2 = v >> 16, v & 0xffff
    if pat.startswith('111100111000nnnn') and rng.random() < .7:
        h2 = (h2 & 0xf3ff) | 0x800      # the one mask every special register allows
    return h1, h2


class Encodings(object):
    """Pools of encodings, classified by the model."""

    def __init__(self):
        self.h16 = {}
        self.by_class = {}
        for h in range(0x10000):
            if arm.is32(h):
                continue
            i = arm.decode(h)
            self.h16[h] = i
            if i.__class__ is Insn:
                self.by_class.setdefault((i.fam, i.mnem, len(i.ops), i.ops[-1][0] if i.ops else ''), []).append(h)
        self.classes16 = sorted(self.by_class)

    def pick(self, rng, want=None, soft=False):
        """A random valid (h1, h2 or None, Insn); `want` filters on the Insn."""
        for _ in range(2000):
            if rng.random() < .5:
                h = rng.choice(self.by_class[rng.choice(self.classes16)])
                i, h2 = self.h16[h], None
            else:
                h, h2 = fill(rng, rng.choice(TEMPLATES)[1])
                i = arm.decode(h, h2)
            if i.__class__ is Insn and (soft or not i.soft) and (want is None or want(i)):
                return h, h2, i
        raise RuntimeError('generator starved')

    def picker(self, want, rng):
        """A fast picker restricted to the classes and templates for which `want` ever holds."""
        cls = [c for c in self.classes16 if any(want(self.h16[h]) and not self.h16[h].soft for h in self.by_class[c])]
        tpl = []
        probe = random.Random(7)
        for name, pat in TEMPLATES:
            for _ in range(60):
                i = arm.decode(*fill(probe, pat))
                if i.__class__ is Insn and not i.soft and want(i):
                    tpl.append(pat)
                    break
        n16, n32 = len(cls), len(tpl)

        def pick(regs=None):
            while True:
                if rng.random() * (n16 + n32) < n16:
                    h = rng.choice(self.by_class[rng.choice(cls)])
                    i, h2 = self.h16[h], None
                else:
                    h, h2 = fill(rng, rng.choice(tpl), regs)
                    i = arm.decode(h, h2)
                if i.__class__ is Insn and not i.soft and want(i):
                    return h, h2, i
        pick.classes = n16 + n32
        return pick


_enc = []


def encodings():
    if not _enc:
        _enc.append(Encodings())
    return _enc[0]


def tobytes(h1, h2=None):
    b = [h1 & 0xff, h1 >> 8]
    if h2 is not None:
        b += [h2 & 0xff, h2 >> 8]
    return bytearray(b)


def hexw(h1, h2=None):
    return '%04x' % h1 if h2 is None else '%04x %04x' % (h1, h2)


def real_decode(data, addr=0):
    """Instruction, UNDEF or UNPRED. Any other exception propagates."""
    try:
        return cm.decoder.decode(data, addr)
    except cm.Undefined:
        return UNDEF
    except cm.Unpredictable:
        return UNPRED


# ------------------------------------------------------------------ text

LINE = re.compile(r'^([0-9a-f]{4})(?: ([0-9a-f]{4}))?\s+(\S+)\s*(.*?)(?:\s+;\s*(.*))?$')
REGNUM = dict((n, k) for k, n in enumerate(arm.REGNAMES))
SYSNUM = dict((n, k) for k, n in arm.SYSREGS.items())


class BadText(Exception):
    pass


def split_ops(s):
    out, depth, cur = [], 0, ''
    for c in s:
        if c in '[{': depth += 1
        if c in ']}': depth -= 1
        if c == ',' and depth == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += c
    if cur.strip():
        out.append(cur.strip())
    return out


def parse_op(t):
    if t.endswith('!'):
        k, v = parse_op(t[:-1].strip())[:2]
        if k != 'reg': raise BadText(t)
        return ('reg!', v)
    if t in REGNUM: return ('reg', REGNUM[t])
    if t[:1] == '#': return ('imm', int(t[1:], 10))
    if t[:1] == '.': return ('disp', int(t[1:], 10))
    if t[:1] == '{' and t[-1:] == '}':
        mask = 0
        for p in t[1:-1].split(','):
            p = p.strip()
            if '-' in p:
                a, b = [REGNUM[x.strip()] for x in p.split('-')]
                if b <= a: raise BadText(t)
            else:
                a = b = REGNUM[p]
            for k in range(a, b + 1):
                if mask & (1 << k): raise BadText(t)
                mask |= 1 << k
        return ('list', mask)
    if t[:1] == '[' and t[-1:] == ']':
        return ('mem', [parse_op(x) for x in split_ops(t[1:-1])])
    m = re.match(r'^(LSL|LSR|ASR|ROR|RRX)(?: #(\d+))?$', t)
    if m:
        if m.group(2) is None and m.group(1) != 'RRX': raise BadText(t)
        return ('shift', arm.SHIFT_NAMES[m.group(1)], int(m.group(2) or 1))
    if t == 'sy': return ('barrier', 15)
    if t in ('i', 'f', 'if'): return ('cps', int('i' in t), int('f' in t))
    m = re.match(r'^([A-Z]+(?:_MAX)?)(?:_(nzcvqg|nzcvq|g))?$', t)
    if m and m.group(1) in SYSNUM:
        return ('sysreg', SYSNUM[m.group(1)], {None: 0, 'nzcvq': 2, 'g': 1, 'nzcvqg': 3}[m.group(2)])
    raise BadText(t)


def parse_line(text):
    m = LINE.match(text)
    if not m:
        raise BadText(text)
    hw = [int(m.group(1), 16)] + ([int(m.group(2), 16)] if m.group(2) else [])
    ops = [parse_op(x) for x in split_ops(m.group(4))]
    comments = [int(x, 16) for x in (m.group(5) or '').split()]
    return hw, m.group(3), ops, comments


def canon(ops, addr):
    """Model operands, and parsed operands, in one normal form."""
    out = []
    for o in ops:
        k = o[0]
        if k == 'label':
            base = (addr + 4) & ~(o[2] - 1)
            out.append(('disp', (base + o[1] - addr) & M32))
        elif k == 'disp':
            out.append(('disp', o[1] & M32))
        elif k == 'mem':
            inner = canon(o[1], addr)
            if len(inner) == 2 and inner[1] == ('imm', 0):
                inner = inner[:1]
            out.append(('mem', tuple(inner)))
        elif k == 'shift':
            if o[2] != 0:
                out.append(o)
        elif k == 'sysreg':
            mask = o[2] or 0
            out.append(('sysreg', o[1], mask if o[1] < 4 else 0))
        elif k == 'barrier':
            out.append(('barrier', o[1]))
        else:
            out.append(tuple(o))
    return out


def expected_comments(ops, addr):
    out = []
    for o in ops:
        if o[0] == 'imm' and o[1] > 9:
            out.append(o[1])
        elif o[0] == 'label':
            out.append((((addr + 4) & ~(o[2] - 1)) + o[1]) & M32)
        elif o[0] == 'mem':
            out += expected_comments(o[1], addr)
    return out


def text_problems(text, insn, addr, comments=True):
    """Why `text` is not a faithful rendering of the model instruction; [] when it is."""
    try:
        hw, mn, ops, com = parse_line(text)
    except (BadText, KeyError, ValueError) as e:
        return ['unparseable text: %s' % e]
    out = []
    want = [insn.word & 0xffff] + ([insn.word >> 16] if insn.size == 4 else [])
    if hw != want:
        out.append('halfwords %r, encoded %r' % (hw, want))
    if mn != insn.mnem:
        out.append('mnemonic %s, encoded %s' % (mn, insn.mnem))
    a, b = canon(ops, addr), canon(insn.ops, addr)
    if insn.ops and insn.ops[0][0] == 'barrier' and ops and ops[0][0] == 'imm':
        a = [('barrier', ops[0][1])]
        if ops[0][1] == 15:
            a = []      # 15 is named sy
    if a != b:
        out.append('operands %r, encoded %r' % (a, b))
    if comments:
        ec = sorted(expected_comments(insn.ops, addr))
        if sorted(com) != ec:
            out.append('comments %r, expected %r' % ([hex(c) for c in com], [hex(c) for c in ec]))
    return out


# ------------------------------------------------------------------ memories and delegates

class HashMem(object):
    """Sparse 32-bit memory with pseudo-random initial content."""
    __slots__ = ('salt', 'd')

    def __init__(self, salt=0):
        self.salt = salt
        self.d = {}

    def load(self, a):
        v = self.d.get(a)
        if v is None:
            x = (a * 2654435761 + self.salt) & M32
            v = ((x >> 13) ^ (x >> 24) ^ x) & 0xff
        return v

    def store(self, a, b):
        self.d[a] = b

    def copy(self):
        m = HashMem(self.salt)
        m.d = dict(self.d)
        return m

    def image(self):
        """Bytes that differ from the initial content, so that rewriting the same value is no change."""
        base = HashMem(self.salt)
        return dict((a, v) for a, v in self.d.items() if base.load(a) != v)


REGIONS = [(0x0, 0x100), (0x1000, 0x400), (0x20000000, 0x200), (0x20000200, 0x40), (0x30000001, 0x37),
           (0xfffff000, 0x1000)]


class RegionMem(object):
    """Shadow of the mock's memory: regions, unmapped bytes read zero and ignore writes."""
    __slots__ = ('regs',)

    def __init__(self, layout=REGIONS, rng=None):
        self.regs = []
        for s, n in layout:
            self.regs.append((s, bytearray(rng.getrandbits(8) if rng else 0 for _ in range(n))))

    def load(self, a):
        for s, b in self.regs:
            if s <= a < s + len(b):
                return b[a - s]
        return 0

    def store(self, a, v):
        for s, b in self.regs:
            if s <= a < s + len(b):
                b[a - s] = v
                return

    def mapped(self, a):
        return any(s <= a < s + len(b) for s, b in self.regs)

    def copy(self):
        m = RegionMem([])
        m.regs = [(s, bytearray(b)) for s, b in self.regs]
        return m


MEMSIZES = (8, 16, 32)
REGKEYS = None


class Recorder(object):
    """A CPU delegate that logs and type-checks every call at the CPU/delegate boundary and forwards it."""

    def __init__(self, inner, problems=None):
        self.inner = inner
        self.log = []
        self.problems = problems if problems is not None else []

    def _int(self, what, v, top=M32):
        if type(v) is not int or not 0 <= v <= top:
            self.problems.append('%s is %r (%s)' % (what, v, type(v).__name__))

    def read_register(self, reg):
        if type(reg) is not int:
            self.problems.append('read_register(%r)' % (reg,))
        return self.inner.read_register(reg)

    def write_register(self, reg, value):
        if type(reg) is not int:
            self.problems.append('write_register(%r)' % (reg,))
        self._int('write_register(%r) value' % (reg,), value)
        return self.inner.write_register(reg, value)

    def read_memory(self, addr, size=32):
        self._int('read_memory address', addr)
        if type(size) is not int or size not in MEMSIZES:
            self.problems.append('read_memory size %r' % (size,))
        self.log.append(('r', addr, size))
        return self.inner.read_memory(addr, size)

    def write_memory(self, addr, value, size=32):
        self._int('write_memory address', addr)
        if type(size) is not int or size not in MEMSIZES:
            self.problems.append('write_memory size %r' % (size,))
        else:
            self._int('write_memory(%d-bit) value' % size, value, (1 << size) - 1)
        self.log.append(('w', addr, size))
        return self.inner.write_memory(addr, value, size)

    def read_memory_block(self, addr, length):
        self.log.append(('rb', addr, length))
        return self.inner.read_memory_block(addr, length)

    def write_memory_block(self, addr, data):
        self.log.append(('wb', addr, len(data)))
        return self.inner.write_memory_block(addr, data)


class SparseBackend(object):
    """An independent delegate backend over a HashMem: full 32-bit address space, banked SP."""

    def __init__(self, mem):
        self.regs = {}
        self.mem = mem

    def read_register(self, reg):
        return self.regs.get(reg, 0)

    def write_register(self, reg, value):
        value &= M32
        if reg in (13, 17, 18):
            value &= ~3
        self.regs[reg] = value
        sel = self.regs.get(-4, 0) & 2
        if reg == 13: self.regs[18 if sel else 17] = value
        elif reg == 17 and not sel: self.regs[13] = value
        elif reg == 18 and sel: self.regs[13] = value
        elif reg == -4: self.regs[13] = self.regs.get(18 if sel else 17, 0)

    def read_memory(self, addr, size=32):
        v = 0
        for i in range(size // 8):
            v |= self.mem.load(addr + i) << (8 * i)
        return v

    def write_memory(self, addr, value, size=32):
        for i in range(size // 8):
            self.mem.store(addr + i, (value >> (8 * i)) & 0xff)


# delegate register numbers of the state the model tracks
IDX = {'xpsr': 16, 'msp': 17, 'psp': 18, 'control': -4, 'faultmask': -3, 'basepri': -2, 'primask': -1}
OTHERS = [33] + list(range(0x40, 0x60))       # fpscr and the floating-point registers, which nothing here touches
SPECIALS = ('xpsr', 'msp', 'psp', 'control', 'primask', 'faultmask', 'basepri')
FLAG_BITS = ((31, 'n'), (30, 'z'), (29, 'c'), (28, 'v'))


class Machine(object):
    """One real CPU with a recorded delegate, plus the means to load and read back a model State."""

    def __init__(self, kind, rng, salt=None, layout=REGIONS, cpu=None):
        self.kind = kind
        self.problems = []
        self.cpu = cpu or cm.ConfCpu()
        if kind == 'mock':
            self.backend = cm.Mock()
            shadow = RegionMem(layout, rng)
            for s, b in shadow.regs:
                self.backend.add_memory(s, len(b))
                self.backend.write_memory_block(s, bytearray(b))
            self.mem0 = shadow
        else:
            self.mem0 = HashMem(rng.getrandbits(32) if salt is None else salt)
            self.backend = SparseBackend(self.mem0.copy())
        self.rec = Recorder(self.backend, self.problems)
        self.cpu.delegate = self.rec
        self.others = dict((k, rng.getrandbits(32)) for k in OTHERS)
        for k, v in self.others.items(): self.backend.write_register(k, v)

    def load_state(self, s):
        b = self.backend
        b.write_register(-4, s.control)
        b.write_register(17, s.msp)
        b.write_register(18, s.psp)
        for k in range(16):
            if k != 13:
                b.write_register(k, s.r[k])
        b.write_register(16, s.xpsr)
        b.write_register(-1, s.primask)
        b.write_register(-2, s.basepri)
        b.write_register(-3, s.faultmask)
        c = self.cpu
        c.it, c.dsp, c.fp = s.in_it, s.dsp, s.fp
        c.mode = cm.CpuMode.Handler if s.handler else cm.CpuMode.Thread
        del self.rec.log[:]
        del self.problems[:]

    def regs(self):
        """(r0..r15, specials dict) through the CPU's public interface."""
        c = self.cpu
        r = [int(c.r[k]) for k in range(16)]
        sp = dict((k, int(c.read_register(k))) for k in SPECIALS)
        return r, sp

    def mem_diffs(self, model_mem):
        out = []
        if self.kind == 'mock':
            for s, b in model_mem.regs:
                got = self.backend.read_memory_block(s, len(b))
                if got != b:
                    if got is None or len(got) != len(b):
                        out.append(('region', s, None if got is None else len(got), len(b)))
                        continue
                    for k in range(len(b)):
                        if got[k] != b[k]:
                            out.append((s + k, got[k], b[k]))
        else:
            a, b = self.backend.mem.image(), model_mem.image()
            if a != b:
                for k in sorted(set(a) | set(b)):
                    if a.get(k) != b.get(k):
                        out.append((k, self.backend.mem.load(k), model_mem.load(k)))
        return out


def random_state(rng, mem, i=None):
    """A State over `mem`; operand registers of `i` biased so that accesses mostly hit mapped memory."""
    s = State(mem)
    for k in range(16):
        s.r[k] = value(rng)
    if rng.random() < .3:
        a, b = rng.randrange(15), rng.randrange(15)
        s.r[a] = s.r[b]
    s.r[15] = even_pc(rng)
    s.control = rng.choice((0, 0, 0, 1, 2, 2, 3, 3, 4, 7))
    s.msp, s.psp = value(rng) & ~3, value(rng) & ~3
    s.xpsr = (rng.getrandbits(4) << 28) | 0x01000000 | (rng.choice((0, 0, 0x08000000)))
    if rng.random() < .3:
        s.xpsr |= rng.getrandbits(28)
    s.primask, s.faultmask, s.basepri = rng.getrandbits(1), rng.getrandbits(1), rng.choice((0, 0, rng.getrandbits(8)))
    s.handler = rng.random() < .2
    s.in_it = rng.random() < .15
    s.dsp = rng.random() < .3
    s.fp = rng.random() < .3
    if i is not None:
        aim(rng, s, i)
    s.r[13] = s.psp if s.control & 2 else s.msp
    return s


def setsp(s, v):
    v &= ~3 & M32
    if s.control & 2: s.psp = v
    else: s.msp = v
    s.r[13] = v


def some_address(rng, mem):
    if isinstance(mem, RegionMem):
        st, b = rng.choice(mem.regs)
        k = rng.random()
        if k < .6: a = st + rng.randrange(len(b))
        elif k < .8: a = st + len(b) + rng.randrange(-16, 4)
        else: a = st + rng.randrange(-4, 16)
        return a & M32
    k = rng.random()
    if k < .15: return (rng.randrange(-64, 64)) & M32
    if k < .35: return place(rng)
    return rng.getrandbits(32)


def aim(rng, s, i):
    """Makes address operands point somewhere interesting."""
    if i.fam == 'shift' and i.m is not None and i.m != i.n:
        a = shift_amount(rng)
        if a is not None:
            s.r[i.m] = (s.r[i.m] & 0xffffff00) | a
    if i.op in ('ldr', 'str') and rng.random() < .9:
        a = some_address(rng, s.mem)
        if a + i.msize // 8 > 1 << 32:
            a -= 4
        if rng.random() < .5:
            a &= ~(i.msize // 8 - 1)
        if i.imm is not None:
            base = (a - i.imm) & M32
        elif i.n == i.m:
            base = (a // (1 + (1 << i.sn))) & M32
        else:
            base = (a - ((s.r[i.m] << i.sn) & M32)) & M32
        if i.n == 13: setsp(s, base)
        else: s.r[i.n] = base
    elif i.op in ('push', 'pop', 'stm', 'ldm'):
        a = some_address(rng, s.mem)
        n = 4 * arm.popcount(i.regs)
        if rng.random() < .7: a &= ~3
        if i.op in ('push', 'pop'):
            setsp(s, a + n if i.op == 'push' else a)
        elif i.n == 13: setsp(s, a)
        else: s.r[i.n] = a
    elif i.op == 'ldrlit' and rng.random() < .8:
        s.r[15] = (some_address(rng, s.mem) - i.imm) & ~1 & M32
    else:
        s.r[13] = s.psp if s.control & 2 else s.msp


def describe(h1, h2, s):
    return {'encoding': hexw(h1, h2), 'r': ['%08x' % x for x in s.r], 'xpsr': '%08x' % s.xpsr,
            'msp': '%08x' % s.msp, 'psp': '%08x' % s.psp, 'control': s.control, 'primask': s.primask,
            'faultmask': s.faultmask, 'basepri': s.basepri, 'handler': s.handler, 'in_it': s.in_it,
            'dsp': s.dsp, 'fp': s.fp}


def pc_operand(i):
    """Data-processing instructions that read the PC as a general operand (known finding pc-operand-raw)."""
    return (i.fam == 'addhi' and (i.n == 15 or i.m == 15)) or (i.fam == 'mov' and i.m == 15)


class Outcome(object):
    """Differences between the real and the model state after one instruction, by category."""
    __slots__ = ('dest', 'flags', 'mem', 'frame', 'pc', 'lr', 'sysregs', 'events', 'calls', 'kind', 'before', 'after', 'nevents',
                 'changed')

    def all(self):
        return dict((k, getattr(self, k)) for k in
                    ('dest', 'flags', 'mem', 'frame', 'pc', 'lr', 'sysregs', 'events', 'calls') if getattr(self, k))


def step_compare(machine, obj, i, s, bias=4, model=None):
    """Runs obj on the real machine (already in state s) and i on s; returns the Outcome."""
    before = s.copy(mem=None)
    s.events = []
    unknown_store = None
    if i.op == 'stm' and i.wback and (i.regs >> i.n) & 1 and (i.regs & ((1 << i.n) - 1)):
        # the value stored for a base register that is not the lowest listed is UNKNOWN
        pos = arm.popcount(i.regs & ((1 << i.n) - 1))
        unknown_store = (s.r[i.n] + 4 * pos) & M32
    obj.execute(machine.cpu)
    kind = arm.execute(i, s, bias)
    log = list(machine.rec.log)
    del machine.rec.log[:]
    if unknown_store is not None:
        for k in range(4):
            v = machine.backend.read_memory((unknown_store + k), 8)
            s.mem.store(unknown_store + k, v)
    r, sp = machine.regs()
    o = Outcome()
    o.kind, o.before = kind, before
    dests = arm.dests(i)
    o.dest, o.flags, o.frame, o.pc, o.lr, o.sysregs = [], [], [], [], [], []
    for k in range(15):
        if r[k] != s.r[k]:
            d = ('r%d' % k, '%08x' % r[k], '%08x' % s.r[k])
            if k == 13 and i.op == 'msr':
                o.sysregs.append(d)
            elif k == 14 and (i.op in ('bl', 'blx') or (i.op in ('b', 'bx'))):
                o.lr.append(d)
            elif k in dests:
                o.dest.append(d)
            else:
                o.frame.append(d)
    if r[15] != s.r[15] and not (kind == 'pc-loaded' and r[15] == s.r[15] & ~1):
        o.pc.append(('pc', '%08x' % r[15], '%08x' % s.r[15]))
    for bit, n in FLAG_BITS:
        if (sp['xpsr'] >> bit) & 1 != s.flag(bit):
            o.flags.append((n, (sp['xpsr'] >> bit) & 1, s.flag(bit)))
    if sp['xpsr'] & 0x0fffffff != s.xpsr & 0x0fffffff:
        (o.sysregs if i.op == 'msr' else o.frame).append(('xpsr', '%08x' % sp['xpsr'], '%08x' % s.xpsr))
    for k in SPECIALS[1:]:
        if sp[k] != getattr(s, k):
            d = (k, '%08x' % sp[k], '%08x' % getattr(s, k))
            if k in ('msp', 'psp') and 13 in dests:
                (o.dest if (k == 'psp') == bool(s.control & 2) else o.frame).append(d)
            elif i.op in ('cps', 'msr'):
                o.sysregs.append(d)
            else:
                o.frame.append(d)
    c = machine.cpu
    if c.mode != (cm.CpuMode.Handler if s.handler else cm.CpuMode.Thread): o.frame.append(('mode', str(c.mode), s.handler))
    if c.delegate is not machine.rec: o.frame.append(('delegate', repr(c.delegate), ''))
    read = machine.backend.read_register
    for k, v in machine.others.items():
        if read(k) != v: o.frame.append(('register %d' % k, '%08x' % read(k), '%08x' % v))
    o.mem = machine.mem_diffs(s.mem)
    o.events, o.nevents = [], len(log)
    if sorted(log) != sorted(s.events):
        o.events = [('observed', [list(e[:1]) + ['%x' % e[1], e[2]] for e in log[:20]]),
                    ('expected', [list(e[:1]) + ['%x' % e[1], e[2]] for e in s.events[:20]])]
    o.calls = list(machine.problems[:3])
    del machine.problems[:]
    o.after = (r, sp)
    return o
