"""A small Thumb assembler for the program workloads. Each function returns a list of halfwords."""


def t(h): return [h]
def movs(rd, imm): return [0x2000 | rd << 8 | imm]
def mov(rd, rm): return [0x4600 | (rd & 8) << 4 | rm << 3 | rd & 7]
def adds3(rd, rn, rm): return [0x1800 | rm << 6 | rn << 3 | rd]
def subs3(rd, rn, rm): return [0x1a00 | rm << 6 | rn << 3 | rd]
def addi(rd, imm): return [0x3000 | rd << 8 | imm]
def subi(rd, imm): return [0x3800 | rd << 8 | imm]
def addi3(rd, rn, imm): return [0x1c00 | imm << 6 | rn << 3 | rd]
def cmpi(rn, imm): return [0x2800 | rn << 8 | imm]
def cmp(rn, rm): return [0x4280 | rm << 3 | rn]
def dp(op, rdn, rm): return [0x4000 | op << 6 | rm << 3 | rdn]
def lsli(rd, rm, n): return [n << 6 | rm << 3 | rd]
def lsri(rd, rm, n): return [0x800 | n << 6 | rm << 3 | rd]
def ldr(rt, rn, off=0): return [0x6800 | (off // 4) << 6 | rn << 3 | rt]
def str_(rt, rn, off=0): return [0x6000 | (off // 4) << 6 | rn << 3 | rt]
def ldrb(rt, rn, off=0): return [0x7800 | off << 6 | rn << 3 | rt]
def strb(rt, rn, off=0): return [0x7000 | off << 6 | rn << 3 | rt]
def ldrh(rt, rn, off=0): return [0x8800 | (off // 2) << 6 | rn << 3 | rt]
def strh(rt, rn, off=0): return [0x8000 | (off // 2) << 6 | rn << 3 | rt]
def ldrr(rt, rn, rm): return [0x5800 | rm << 6 | rn << 3 | rt]
def strr(rt, rn, rm): return [0x5000 | rm << 6 | rn << 3 | rt]
def ldrlit(rt, imm8): return [0x4800 | rt << 8 | imm8]
def push(regs): return [0xb400 | (1 if regs & 0x4000 else 0) << 8 | regs & 0xff]
def pop(regs): return [0xbc00 | (1 if regs & 0x8000 else 0) << 8 | regs & 0xff]
def bx(rm): return [0x4700 | rm << 3]
def blx(rm): return [0x4780 | rm << 3]
def addsp(imm): return [0xb000 | imm // 4]
def subsp(imm): return [0xb080 | imm // 4]
def ldmia(rn, regs): return [0xc800 | rn << 8 | regs]
def stmia(rn, regs): return [0xc000 | rn << 8 | regs]
def adr(rd, imm8): return [0xa000 | rd << 8 | imm8]


class Label(object):
    def __init__(self, kind, name, cond=None, rd=None):
        self.kind, self.name, self.cond, self.rd = kind, name, cond, rd
        self.size = 2 if kind == 'bl' else 1


CC = dict((c, n) for n, c in enumerate(['eq', 'ne', 'cs', 'cc', 'mi', 'pl', 'vs', 'vc', 'hi', 'ls', 'ge', 'lt', 'gt', 'le']))
def b(name): return Label('b', name)
def bc(cond, name): return Label('bc', name, CC[cond])
def bl(name): return Label('bl', name)
def ldrl(rd, name): return Label('ldrl', name, rd=rd)


def assemble(items, base):
    """items: lists of halfwords, Labels, 'name:' strings, ('word', value or name). Returns bytes, symbols."""
    out, fix, sym = [], [], {}
    for it in items:
        if isinstance(it, str):
            sym[it[:-1]] = base + 2 * len(out)
        elif isinstance(it, Label):
            fix.append((len(out), it))
            out += [0] * it.size
        elif isinstance(it, tuple):
            if len(out) & 1 != (base >> 1) & 1:
                out.append(0xbf00)
                sym = dict((k, v) for k, v in sym.items())
            if it[1] is not None and len(it) > 2: sym[it[2]] = base + 2 * len(out)
            fix.append((len(out), it))
            out += [0, 0]
        else:
            out += it
    for pos, it in fix:
        pc = base + 2 * pos + 4
        if isinstance(it, tuple):
            v = sym[it[1]] | 1 if isinstance(it[1], str) else it[1]
            out[pos], out[pos + 1] = v & 0xffff, v >> 16
            continue
        off = sym[it.name] - pc
        if it.kind == 'b':
            assert -2048 <= off < 2048
            out[pos] = 0xe000 | (off >> 1) & 0x7ff
        elif it.kind == 'bc':
            assert -256 <= off < 256
            out[pos] = 0xd000 | it.cond << 8 | (off >> 1) & 0xff
        elif it.kind == 'ldrl':
            off = sym[it.name] - (pc & ~3)
            assert 0 <= off < 1024 and not off & 3
            out[pos] = 0x4800 | it.rd << 8 | off >> 2
        else:
            o = off & 0x1ffffff
            s, i1, i2 = o >> 24, (o >> 23) & 1, (o >> 22) & 1
            out[pos] = 0xf000 | s << 10 | (o >> 12) & 0x3ff
            out[pos + 1] = 0xd000 | (1 ^ i1 ^ s) << 13 | (1 ^ i2 ^ s) << 11 | (o >> 1) & 0x7ff
    bs = bytearray()
    for h in out:
        bs += bytearray((h & 255, h >> 8))
    return bs, sym


# ---- programs: each returns items; entry at 'start', halts at 'halt' (a branch to itself)

def p_memcpy(rng):
    n = rng.randrange(1, 24)
    return ['start:', ldrl(0, 'src'), ldrl(1, 'dst'), movs(2, n), 'loop:', ldrb(3, 0), strb(3, 1), addi(0, 1), addi(1, 1),
            subi(2, 1), bc('ne', 'loop'), 'halt:', b('halt'),
            ('word', 0x20000000 + rng.randrange(64), 'src'), ('word', 0x20000080 + rng.randrange(64), 'dst')]


def p_fib(rng):
    return ['start:', movs(0, rng.randrange(1, 9)), bl('fib'), 'halt:', b('halt'),
            'fib:', push(0x4010), cmpi(0, 2), bc('cc', 'done'), mov(4, 0), subi(0, 1), bl('fib'), mov(12, 0), push(0x01),
            mov(0, 4), subi(0, 2), bl('fib'), pop(0x02), adds3(0, 0, 1), 'done:', pop(0x8010)]


def p_sort(rng):
    n = rng.randrange(3, 9)
    return ['start:', ldrl(0, 'arr'), movs(1, n - 1), 'outer:', mov(2, 0), mov(3, 1), 'inner:', ldr(4, 2), ldr(5, 2, 4),
            cmp(4, 5), bc(rng.choice(('ls', 'le')), 'noswap'), str_(5, 2), str_(4, 2, 4), 'noswap:', addi(2, 4),
            subi(3, 1), bc('ne', 'inner'), subi(1, 1), bc('ne', 'outer'), 'halt:', b('halt'), ('word', 0x20000010, 'arr')]


def p_crc(rng):
    return ['start:', ldrl(0, 'src'), movs(1, rng.randrange(1, 6)), movs(2, 0), dp(15, 2, 2), ldrl(6, 'poly'), 'byte:',
            ldrb(3, 0), dp(1, 2, 3), movs(4, 8), 'bit:', lsri(2, 2, 1), bc('cc', 'skip'), dp(1, 2, 6), 'skip:', subi(4, 1),
            bc('ne', 'bit'), addi(0, 1), subi(1, 1), bc('ne', 'byte'), dp(15, 2, 2), 'halt:', b('halt'),
            ('word', 0x20000000 + rng.randrange(128), 'src'), ('word', 0xedb88320, 'poly')]


def p_dispatch(rng):
    """Computed calls through a table of function pointers."""
    it = ['start:', ldrl(4, 'table'), movs(5, rng.randrange(2, 7)), movs(0, rng.randrange(256)), 'loop:', movs(1, 3),
          dp(0, 1, 5), lsli(1, 1, 2), ldrr(2, 4, 1), blx(2), subi(5, 1), bc('ne', 'loop'), 'halt:', b('halt'),
          'f0:', addi(0, 17), bx(14), 'f1:', lsli(0, 0, 3), bx(14), 'f2:', dp(15, 0, 0), bx(14),
          'f3:', push(0x4000), bl('f1'), subi(0, 5), pop(0x8000), ('word', 0, 'table')]
    return it + [('word', 'f0', 't0'), ('word', 'f1'), ('word', 'f2'), ('word', 'f3')]


def p_frame(rng):
    """Stack frames with locals, block moves and 64-bit arithmetic."""
    return ['start:', movs(4, rng.randrange(1, 12)), 'again:', bl('work'), subi(4, 1), bc('gt', 'again'), 'halt:', b('halt'),
            'work:', push(0x40f0), subsp(24), mov(5, 13), stmia(5, 0x5f), mov(6, 13), ldmia(6, 0x0f), adds3(0, 0, 2),
            dp(5, 1, 3), [0x9000 | 2], [0x9800 | 3 << 8 | 2], dp(13, 3, 0), dp(4, 2, 3), dp(7, 2, 3), [0xba00 | 2 << 3 | 2],
            [0xb200 | 0x40 | 3 << 3 | 1], dp(6, 1, 0), addsp(24), pop(0x80f0)]


PROGRAMS = [p_memcpy, p_fib, p_sort, p_crc, p_dispatch, p_frame]
