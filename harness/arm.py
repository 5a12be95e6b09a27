"""Independent executable model of the Thumb subset that cmdis supports.

Written from the Armv7-M architecture manual with plain integers; it imports nothing from cmdis.
decode() maps instruction bits to an Insn (or UNDEF / UNPRED); execute() maps an Insn and a State
to the architectural effects.

Outcome classes of decode():
  UNDEF            must be reported as undefined
  UNPRED           must be refused as unpredictable (the list in property C03)
  Insn             must decode; Insn.soft marks encodings the architecture calls UNPREDICTABLE but
                   which the simulator is free to accept: their execution is not constrained.
"""

M32 = 0xffffffff
UNDEF = 'undefined'
UNPRED = 'unpredictable'

LSL, LSR, ASR, ROR, RRX = 1, 2, 3, 4, 5
SHIFT_NAMES = {'LSL': LSL, 'LSR': LSR, 'ASR': ASR, 'ROR': ROR, 'RRX': RRX}
CONDS = ['eq', 'ne', 'cs', 'cc', 'mi', 'pl', 'vs', 'vc', 'hi', 'ls', 'ge', 'lt', 'gt', 'le']
REGNAMES = ['r0', 'r1', 'r2', 'r3', 'r4', 'r5', 'r6', 'r7', 'r8', 'r9', 'r10', 'r11', 'r12', 'sp', 'lr', 'pc']
SYSREGS = {0: 'APSR', 1: 'IAPSR', 2: 'EAPSR', 3: 'XPSR', 5: 'IPSR', 6: 'EPSR', 7: 'IEPSR', 8: 'MSP',
           9: 'PSP', 16: 'PRIMASK', 17: 'BASEPRI', 18: 'BASEPRI_MAX', 19: 'FAULTMASK', 20: 'CONTROL'}

S_NEVER, S_ALWAYS, S_NOTIT = 0, 1, 2


class Insn(object):
    __slots__ = ('op', 'fam', 'size', 'word', 'mnem', 'd', 'n', 'm', 't', 'imm', 's', 'st', 'sn', 'regs',
                 'wback', 'cond', 'add', 'msize', 'signed', 'ops', 'soft', 'x')

    def __init__(self, op, fam, mnem, ops, **kw):
        self.op, self.fam, self.mnem, self.ops = op, fam, mnem, ops
        self.size = self.word = None
        self.d = self.n = self.m = self.t = self.imm = self.cond = self.regs = None
        self.st = self.sn = self.x = None
        self.s = S_NEVER
        self.wback = self.signed = self.soft = False
        self.add = True
        self.msize = 32
        for k in kw:
            setattr(self, k, kw[k])

    def __repr__(self):
        return '<model %s %s %r>' % (self.mnem, hex(self.word), self.ops)


def R(n): return ('reg', n)
def RW(n): return ('reg!', n)
def IMM(v): return ('imm', v)


def bits(v, hi, lo): return (v >> lo) & ((1 << (hi - lo + 1)) - 1)
def sx(v, n): return (v & ((1 << n) - 1)) - ((1 << n) if v & (1 << (n - 1)) else 0)
def popcount(v): return bin(v).count('1')


def ror32(v, n):
    n &= 31
    return ((v >> n) | (v << (32 - n))) & M32


def expand_imm(imm12):
    """ThumbExpandImm_C: (imm32, carry or None when the carry is unchanged)."""
    if imm12 >> 10 == 0:
        b = imm12 & 0xff
        k = bits(imm12, 9, 8)
        return ([b, b << 16 | b, b << 24 | b << 8, b * 0x01010101][k], None)
    v = ror32(0x80 | (imm12 & 0x7f), imm12 >> 7)
    return v, v >> 31


def imm_shift(type, imm5):
    if type == 0: return LSL, imm5
    if type == 1: return LSR, imm5 or 32
    if type == 2: return ASR, imm5 or 32
    return (ROR, imm5) if imm5 else (RRX, 1)


def shift_c(v, st, n, c, width=32):
    """(result, carry) of shifting a width-bit value."""
    mask = (1 << width) - 1
    if st is None or n == 0:
        return v, c
    if st == LSL:
        return (v << n) & mask, (v >> (width - n)) & 1 if n <= width else 0
    if st == LSR:
        return v >> n, (v >> (n - 1)) & 1
    if st == ASR:
        s = sx(v, width)
        return (s >> n) & mask, (s >> (n - 1)) & 1
    if st == ROR:
        k = n % width
        r = ((v >> k) | (v << (width - k))) & mask
        return r, r >> (width - 1)
    return (c << (width - 1)) | (v >> 1), v & 1


def add_carry(x, y, c, width=32):
    m = (1 << width) - 1
    u = x + y + c
    r = u & m
    return r, u >> width, int(sx(x, width) + sx(y, width) + c != sx(r, width))


# ------------------------------------------------------------------ decoding

DP16 = ['ands', 'eors', 'lsls', 'lsrs', 'asrs', 'adcs', 'sbcs', 'rors',
        'tst', 'rsbs', 'cmp', 'cmn', 'orrs', 'muls', 'bics', 'mvns']
LS16 = [('str', 32, 0), ('strh', 16, 0), ('strb', 8, 0), ('ldrsb', 8, 1),
        ('ldr', 32, 0), ('ldrh', 16, 0), ('ldrb', 8, 0), ('ldrsh', 16, 1)]


def dec16(h):
    lo3, mid3 = h & 7, (h >> 3) & 7
    top5 = h >> 11
    imm8 = h & 0xff
    r8 = (h >> 8) & 7
    if top5 < 3:
        imm5 = (h >> 6) & 31
        if top5 == 0 and imm5 == 0:
            return Insn('mov', 'mov', 'movs', [R(lo3), R(mid3)], d=lo3, m=mid3, s=S_ALWAYS)
        st, sn = imm_shift(top5, imm5)
        return Insn('shift', 'shift', ('lsls', 'lsrs', 'asrs')[top5], [R(lo3), R(mid3), IMM(sn)],
                    d=lo3, n=mid3, st=st, sn=sn, s=S_NOTIT)
    if top5 == 3:
        v = (h >> 6) & 7
        op = 'sub' if h & 0x200 else 'add'
        if h & 0x400:
            return Insn(op, 'addsub', op + 's', [R(lo3), R(mid3), IMM(v)], d=lo3, n=mid3, imm=v, s=S_NOTIT)
        return Insn(op, 'addsub', op + 's', [R(lo3), R(mid3), R(v)], d=lo3, n=mid3, m=v, s=S_NOTIT)
    if top5 == 4:
        return Insn('mov', 'mov', 'movs', [R(r8), IMM(imm8)], d=r8, imm=imm8, s=S_NOTIT)
    if top5 == 5:
        return Insn('cmp', 'cmp', 'cmp', [R(r8), IMM(imm8)], n=r8, imm=imm8, s=S_ALWAYS)
    if top5 in (6, 7):
        op = ('add', 'sub')[top5 - 6]
        return Insn(op, 'addsub', op + 's', [R(r8), IMM(imm8)], d=r8, n=r8, imm=imm8, s=S_NOTIT)
    if h >> 10 == 0x10:
        mn = DP16[(h >> 6) & 15]
        dn, m = lo3, mid3
        if mn in ('ands', 'eors', 'orrs', 'bics'):
            return Insn(mn[:3], 'logic', mn, [R(dn), R(m)], d=dn, n=dn, m=m, s=S_NOTIT)
        if mn in ('lsls', 'lsrs', 'asrs', 'rors'):
            return Insn('shift', 'shift', mn, [R(dn), R(m)], d=dn, n=dn, m=m, st=SHIFT_NAMES[mn[:3].upper()], s=S_NOTIT)
        if mn in ('adcs', 'sbcs'):
            return Insn(mn[:3], 'addsub', mn, [R(dn), R(m)], d=dn, n=dn, m=m, s=S_NOTIT)
        if mn == 'tst':
            return Insn('tst', 'cmp', mn, [R(dn), R(m)], n=dn, m=m, s=S_ALWAYS)
        if mn in ('cmp', 'cmn'):
            return Insn(mn, 'cmp', mn, [R(dn), R(m)], n=dn, m=m, s=S_ALWAYS)
        if mn == 'rsbs':
            return Insn('rsb', 'addsub', mn, [R(dn), R(m), IMM(0)], d=dn, n=m, imm=0, s=S_NOTIT)
        if mn == 'muls':
            return Insn('mul', 'mul', mn, [R(dn), R(m), R(dn)], d=dn, n=m, m=dn, s=S_NOTIT)
        return Insn('mvn', 'mov', mn, [R(dn), R(m)], d=dn, m=m, s=S_NOTIT)
    if h >> 10 == 0x11:
        sel = (h >> 8) & 3
        d = ((h >> 4) & 8) | lo3
        m = (h >> 3) & 15
        if sel == 0:
            if m == 13:
                return Insn('add', 'addhi', 'add', [R(d), R(13), R(d)], d=d, n=13, m=d)
            return Insn('add', 'addhi', 'add', [R(d), R(m)], d=d, n=d, m=m, soft=(d == 15 and m == 15))
        if sel == 1:
            return Insn('cmp', 'cmp', 'cmp', [R(d), R(m)], n=d, m=m, s=S_ALWAYS,
                        soft=(d == 15 or m == 15 or (d < 8 and m < 8)))
        if sel == 2:
            return Insn('mov', 'mov', 'mov', [R(d), R(m)], d=d, m=m)
        if lo3:
            return UNDEF
        if h & 0x80:
            return Insn('blx', 'branch', 'blx', [R(m)], m=m, soft=(m == 15))
        return Insn('bx', 'branch', 'bx', [R(m)], m=m, soft=(m == 15))
    if top5 == 9:
        return Insn('ldrlit', 'ldrlit', 'ldr', [R(r8), ('mem', [R(15), IMM(imm8 * 4)])],
                    t=r8, imm=imm8 * 4)
    if h >> 12 == 5:
        mn, size, sg = LS16[(h >> 9) & 7]
        m = (h >> 6) & 7
        return Insn(mn[:2] == 'ld' and 'ldr' or 'str', 'ldstreg', mn, [R(lo3), ('mem', [R(mid3), R(m)])],
                    t=lo3, n=mid3, m=m, st=LSL, sn=0, msize=size, signed=bool(sg))
    if h >> 13 == 3 or h >> 12 == 8:
        load = bool(h & 0x800)
        size = 16 if h >> 12 == 8 else (8 if h & 0x1000 else 32)
        imm = ((h >> 6) & 31) * (size // 8)
        mn = ('ldr' if load else 'str') + {8: 'b', 16: 'h', 32: ''}[size]
        return Insn('ldr' if load else 'str', 'ldstimm', mn, [R(lo3), ('mem', [R(mid3), IMM(imm)])],
                    t=lo3, n=mid3, imm=imm, msize=size)
    if h >> 12 == 9:
        load = bool(h & 0x800)
        return Insn('ldr' if load else 'str', 'ldstimm', 'ldr' if load else 'str',
                    [R(r8), ('mem', [R(13), IMM(imm8 * 4)])], t=r8, n=13, imm=imm8 * 4)
    if top5 == 0x14:
        return Insn('adr', 'adr', 'adr', [R(r8), ('label', imm8 * 4, 4)], d=r8, imm=imm8 * 4)
    if top5 == 0x15:
        return Insn('add', 'addsp', 'add', [R(r8), R(13), IMM(imm8 * 4)], d=r8, n=13, imm=imm8 * 4)
    if h >> 12 == 0xb:
        return dec16_misc(h)
    if h >> 12 == 0xc:
        if imm8 == 0:
            return UNPRED
        if h & 0x800:
            wb = not (imm8 >> r8) & 1
            return Insn('ldm', 'ldm', 'ldm', [RW(r8) if wb else R(r8), ('list', imm8)], n=r8, regs=imm8, wback=wb)
        return Insn('stm', 'stm', 'stm', [RW(r8), ('list', imm8)], n=r8, regs=imm8, wback=True)
    if h >> 12 == 0xd:
        c = (h >> 8) & 15
        if c == 14:
            return Insn('nop', 'exc', 'udf', [IMM(imm8)])
        if c == 15:
            return Insn('nop', 'exc', 'svc', [IMM(imm8)])
        off = sx(imm8 << 1, 9)
        return Insn('b', 'bcond', 'b' + CONDS[c], [('label', off, 1)], imm=off, cond=c)
    if top5 == 0x1c:
        off = sx((h & 0x7ff) << 1, 12)
        return Insn('b', 'b', 'b', [('label', off, 1)], imm=off, cond=14)
    raise AssertionError(hex(h))


def dec16_misc(h):
    lo3, mid3 = h & 7, (h >> 3) & 7
    sel = (h >> 8) & 15
    imm8 = h & 0xff
    if sel == 0:
        v = (h & 0x7f) * 4
        op = 'sub' if h & 0x80 else 'add'
        return Insn(op, 'addsp', op, [R(13), IMM(v)], d=13, n=13, imm=v)
    if sel == 2:
        mn, w, sg = [('sxth', 16, True), ('sxtb', 8, True), ('uxth', 16, False), ('uxtb', 8, False)][(h >> 6) & 3]
        return Insn('ext', 'ext', mn, [R(lo3), R(mid3)], d=lo3, m=mid3, msize=w, signed=sg, sn=0)
    if sel in (4, 5):
        regs = imm8 | (0x4000 if h & 0x100 else 0)
        if not regs:
            return UNPRED
        return Insn('push', 'push', 'push', [('list', regs)], regs=regs)
    if sel in (12, 13):
        regs = imm8 | (0x8000 if h & 0x100 else 0)
        if not regs:
            return UNPRED
        return Insn('pop', 'pop', 'pop', [('list', regs)], regs=regs)
    if sel == 6 and h & 0xec == 0x60:
        i, f = (h >> 1) & 1, h & 1
        if not (i or f):
            return UNPRED
        dis = (h >> 4) & 1
        return Insn('cps', 'cps', 'cpsid' if dis else 'cpsie', [('cps', i, f)], x=(dis, i, f))
    if sel == 10:
        k = (h >> 6) & 3
        if k == 2:
            return UNDEF
        mn = ('rev', 'rev16', None, 'revsh')[k]
        return Insn('rev', 'rev', mn, [R(lo3), R(mid3)], d=lo3, m=mid3, x=mn)
    if sel == 14:
        return Insn('nop', 'exc', 'bkpt', [IMM(imm8)])
    if sel == 15 and imm8 in (0, 0x10, 0x20, 0x30, 0x40):
        return Insn('nop', 'hint', ('nop', 'yield', 'wfe', 'wfi', 'sev')[imm8 >> 4], [])
    return UNDEF


BAD = (13, 15)


def dec32(h1, h2):
    rn = h1 & 15
    rd = (h2 >> 8) & 15
    rt = h2 >> 12
    rm = h2 & 15
    imm12 = ((h1 >> 10) & 1) << 11 | ((h2 >> 12) & 7) << 8 | (h2 & 0xff)
    s = (h1 >> 4) & 1
    sfl = S_ALWAYS if s else S_NEVER
    sw = 's.w' if s else '.w'
    # --- branch with link
    if h1 & 0xf800 == 0xf000 and h2 & 0xd000 == 0xd000:
        S = (h1 >> 10) & 1
        i1 = 1 ^ ((h2 >> 13) & 1) ^ S
        i2 = 1 ^ ((h2 >> 11) & 1) ^ S
        off = sx(S << 24 | i1 << 23 | i2 << 22 | (h1 & 0x3ff) << 12 | (h2 & 0x7ff) << 1, 25)
        return Insn('bl', 'bl', 'bl', [('label', off, 1)], imm=off, cond=14)
    if h1 & 0xf800 == 0xe800:
        # --- load/store multiple
        if h1 == 0xe92d and not h2 & 0xa000:
            regs = h2
            if not regs:
                return UNPRED
            return Insn('push', 'push', 'push.w', [('list', regs)], regs=regs, soft=popcount(regs) < 2)
        if h1 == 0xe8bd and not h2 & 0x2000:
            if popcount(h2) < 2 or h2 >> 14 == 3:
                return UNPRED
            return Insn('pop', 'pop', 'pop.w', [('list', h2)], regs=h2)
        w = bool(h1 & 0x20)
        if h1 & 0xffd0 == 0xe880 and not h2 & 0xa000:
            if rn == 15 or popcount(h2) < 2 or (w and (h2 >> rn) & 1):
                return UNPRED
            return Insn('stm', 'stm', 'stm.w', [RW(rn) if w else R(rn), ('list', h2)], n=rn, regs=h2, wback=w)
        if h1 & 0xffd0 == 0xe890 and not h2 & 0x2000:
            if rn == 15 or popcount(h2) < 2 or h2 >> 14 == 3 or (w and (h2 >> rn) & 1):
                return UNPRED
            return Insn('ldm', 'ldm', 'ldm.w', [RW(rn) if w else R(rn), ('list', h2)], n=rn, regs=h2, wback=w)
        # --- data processing (shifted register)
        if h1 & 0xffef == 0xea4f and h2 & 0xf0f0 == 0:
            soft = (rd in BAD or rm in BAD) if s else (rd == 15 or rm == 15 or (rd == 13 and rm == 13))
            return Insn('mov', 'mov', 'mov' + sw, [R(rd), R(rm)], d=rd, m=rm, s=sfl, soft=soft)
        st, sn = imm_shift((h2 >> 4) & 3, ((h2 >> 12) & 7) << 2 | (h2 >> 6) & 3)
        if h1 & 0xffef == 0xea6f and not h2 & 0x8000:
            return Insn('mvn', 'mov', 'mvn' + sw, [R(rd), R(rm), ('shift', st, sn)], d=rd, m=rm, st=st, sn=sn,
                        s=sfl, soft=(rd in BAD or rm in BAD))
        if h1 & 0xfff0 == 0xea10 and h2 & 0x8f00 == 0x0f00:
            if rn in BAD or rm in BAD:
                return UNPRED
            return Insn('tst', 'cmp', 'tst.w', [R(rn), R(rm), ('shift', st, sn)], n=rn, m=rm, st=st, sn=sn, s=S_ALWAYS)
        return UNDEF
    if h1 & 0xf800 == 0xf000:
        if h2 & 0x8000 == 0:
            # --- modified / plain immediates
            if h1 & 0xfbef == 0xf04f:
                v, c = expand_imm(imm12)
                return Insn('mov', 'mov', 'mov' + sw, [R(rd), IMM(v)], d=rd, imm=v, x=c, s=sfl, soft=rd in BAD)
            if h1 & 0xfbf0 == 0xf240:
                v = rn << 12 | imm12
                return Insn('mov', 'mov', 'movw', [R(rd), IMM(v)], d=rd, imm=v, soft=rd in BAD)
            if h1 & 0xfbe0 == 0xf1c0:
                if rd in BAD or rn in BAD:
                    return UNPRED
                v, c = expand_imm(imm12)
                return Insn('rsb', 'addsub', 'rsb' + sw, [R(rd), R(rn), IMM(v)], d=rd, n=rn, imm=v, s=sfl)
            if h1 & 0xfbf0 in (0xf1b0, 0xf110) and rd == 15:
                v, c = expand_imm(imm12)
                cmp_ = h1 & 0xfbf0 == 0xf1b0
                return Insn('cmp' if cmp_ else 'cmn', 'cmp', 'cmp.w' if cmp_ else 'cmn', [R(rn), IMM(v)], n=rn,
                            imm=v, s=S_ALWAYS, soft=rn == 15)
            if h1 & 0xfbff in (0xf2af, 0xf20f):
                v = -imm12 if h1 & 0xa0 == 0xa0 else imm12
                return Insn('adr', 'adr', 'adr.w', [R(rd), ('label', v, 4)], d=rd, imm=v, soft=rd in BAD)
            return UNDEF
        # --- system
        if h1 == 0xf3ef and h2 & 0xf000 == 0x8000:
            sy = h2 & 0xff
            if rd in BAD or sy not in SYSREGS:
                return UNPRED
            return Insn('mrs', 'mrs', 'mrs', [R(rd), ('sysreg', sy, None)], d=rd, x=sy)
        if h1 & 0xfff0 == 0xf380 and h2 & 0xf300 == 0x8000:
            sy = h2 & 0xff
            mask = (h2 >> 10) & 3
            if rn in BAD or sy not in SYSREGS or mask == 0 or (mask != 2 and sy > 3):
                return UNPRED
            return Insn('msr', 'msr', 'msr', [('sysreg', sy, mask), R(rn)], n=rn, x=(sy, mask))
        if h1 == 0xf3bf and h2 & 0xfff0 in (0x8f40, 0x8f50, 0x8f60):
            return Insn('nop', 'barrier', ('dsb', 'dmb', 'isb')[((h2 >> 4) & 15) - 4], [('barrier', h2 & 15)])
        if h1 & 0xfff0 == 0xf7f0 and h2 & 0xf000 == 0xa000:
            return Insn('nop', 'exc', 'udf.w', [IMM(rn << 12 | (h2 & 0xfff))])
        return UNDEF
    # --- 11111
    if h1 & 0xfe00 == 0xf800:
        sg = bool(h1 & 0x100)
        load = bool(h1 & 0x10)
        size = {0: 8, 1: 16, 2: 32, 3: 0}[(h1 >> 5) & 3]
        if size == 0 or (sg and (size == 32 or not load)):
            return UNDEF
        mn = ('ldr' if load else 'str') + ('s' if sg else '') + {8: 'b', 16: 'h', 32: ''}[size] + '.w'
        if load and rn == 15:
            if rt == 15 and size != 32:
                return UNDEF
            v = h2 & 0xfff
            if not h1 & 0x80:
                v = -v
            return Insn('ldrlit', 'ldrlit', mn, [R(rt), ('mem', [R(15), IMM(v)])], t=rt, imm=v, msize=size,
                        signed=sg, soft=(rt == 13 and size != 32))
        if h1 & 0x80 or rn == 15:
            return UNDEF
        if h1 == 0xf84d and h2 & 0xfff == 0xd04:
            if rt in BAD:
                return UNPRED
            return Insn('push', 'push', 'push.w', [('list', 1 << rt)], regs=1 << rt)
        if h1 == 0xf85d and h2 & 0xfff == 0xb04:
            return Insn('pop', 'pop', 'pop.w', [('list', 1 << rt)], regs=1 << rt, soft=rt == 13)
        if h2 & 0xfc0:
            return UNDEF
        if rt == 15 and size != 32:
            return UNDEF            # memory hints (loads); stores are UNPREDICTABLE
        sn = (h2 >> 4) & 3
        soft = rm in BAD or (rt == 13 and size != 32) or (rt == 15 and not load)
        return Insn('ldr' if load else 'str', 'ldstreg', mn, [R(rt), ('mem', [R(rn), R(rm), ('shift', LSL, sn)])],
                    t=rt, n=rn, m=rm, st=LSL, sn=sn, msize=size, signed=sg, soft=soft)
    if h1 & 0xfff0 == 0xfb00 and h2 & 0xf0f0 == 0xf000:
        if rd in BAD or rn in BAD or rm in BAD:
            return UNPRED
        return Insn('mul', 'mul', 'mul', [R(rd), R(rn), R(rm)], d=rd, n=rn, m=rm)
    if h1 in (0xfa0f, 0xfa1f, 0xfa4f, 0xfa5f) and h2 & 0xf0c0 == 0xf080:
        sg = not h1 & 0x10
        w = 8 if h1 & 0x40 else 16
        rot = ((h2 >> 4) & 3) * 8
        return Insn('ext', 'ext', ('s' if sg else 'u') + ('xtb.w' if w == 8 else 'xth.w'),
                    [R(rd), R(rm), ('shift', ROR, rot)], d=rd, m=rm, msize=w, signed=sg, sn=rot,
                    soft=(rd in BAD or rm in BAD))
    if h1 & 0xfff0 == 0xfa90 and h2 & 0xf0f0 in (0xf080, 0xf090, 0xf0b0):
        if rn != rm:
            return UNPRED
        mn = {8: 'rev', 9: 'rev16', 11: 'revsh'}[(h2 >> 4) & 15]
        return Insn('rev', 'rev', mn + '.w', [R(rd), R(rm)], d=rd, m=rm, x=mn, soft=(rd in BAD or rm in BAD))
    return UNDEF


def is32(h1):
    return h1 >> 11 in (0x1d, 0x1e, 0x1f)


def decode(h1, h2=None):
    """h2 is None when fewer than four bytes are available."""
    if is32(h1):
        if h2 is None:
            return UNDEF
        i = dec32(h1, h2)
        if i.__class__ is Insn:
            i.size, i.word = 4, h1 | h2 << 16
        return i
    i = dec16(h1)
    if i.__class__ is Insn:
        i.size, i.word = 2, h1
    return i


def decode_bytes(data, off=0):
    n = len(data) - off
    if n < 2:
        return UNDEF
    h1 = data[off] | data[off + 1] << 8
    return decode(h1, (data[off + 2] | data[off + 3] << 8) if n >= 4 else None)


# ------------------------------------------------------------------ execution

N_, Z_, C_, V_ = 31, 30, 29, 28


class State(object):
    """Architectural state. mem is an object with load(addr) -> byte and store(addr, byte)."""
    __slots__ = ('r', 'xpsr', 'msp', 'psp', 'control', 'primask', 'faultmask', 'basepri', 'mem', 'handler',
                 'in_it', 'dsp', 'fp', 'events')

    def __init__(self, mem):
        self.r = [0] * 16
        self.xpsr = 0x01000000
        self.msp = self.psp = self.control = self.primask = self.faultmask = self.basepri = 0
        self.mem = mem
        self.handler = self.in_it = self.dsp = self.fp = False
        self.events = []

    def copy(self, mem=None):
        s = State(self.mem if mem is None else mem)
        s.r = list(self.r)
        for k in ('xpsr', 'msp', 'psp', 'control', 'primask', 'faultmask', 'basepri', 'handler', 'in_it', 'dsp', 'fp'):
            setattr(s, k, getattr(self, k))
        return s

    def flag(self, b): return (self.xpsr >> b) & 1

    def setf(self, b, v):
        self.xpsr = (self.xpsr & ~(1 << b)) | (v << b)

    def setreg(self, n, v):
        v &= M32
        if n == 13:
            v &= ~3
            if self.control & 2:
                self.psp = v
            else:
                self.msp = v
        self.r[n] = v

    def load(self, addr, size):
        addr &= M32
        self.events.append(('r', addr, size))
        v = 0
        for i in range(size // 8):
            v |= self.mem.load(addr + i) << (8 * i)
        return v

    def store(self, addr, v, size):
        addr &= M32
        self.events.append(('w', addr, size))
        for i in range(size // 8):
            self.mem.store(addr + i, (v >> (8 * i)) & 0xff)

    @property
    def privileged(self):
        return self.handler or not self.control & 1

    def specials(self):
        return (self.xpsr, self.msp, self.psp, self.control, self.primask, self.faultmask, self.basepri)


def cond_holds(c, s):
    n, z, cc, v = s.flag(N_), s.flag(Z_), s.flag(C_), s.flag(V_)
    r = [z, cc, n, v, cc and not z, n == v, not z and n == v, True][c >> 1]
    return bool(r) != bool(c & 1) if c < 14 else True


# flags owned by an instruction, as a tuple of bit numbers (empty when it sets none)
def owned_flags(i, in_it=False):
    if i.s == S_NEVER or (i.s == S_NOTIT and in_it):
        return ()
    if i.fam == 'addsub' or i.op in ('cmp', 'cmn'):
        return (N_, Z_, C_, V_)
    if i.op == 'shift' or i.op == 'tst' or (i.op == 'mvn' and i.st) or (i.op == 'mov' and i.x is not None):
        return (N_, Z_, C_)
    return (N_, Z_)


def dests(i):
    """Register numbers the instruction may write, besides the PC."""
    out = set()
    if i.d is not None:
        out.add(i.d)
    if i.op in ('ldr', 'ldrlit'):
        out.add(i.t)
    if i.op in ('pop', 'ldm'):
        out |= set(k for k in range(16) if (i.regs >> k) & 1)
    if i.op in ('push', 'pop'):
        out.add(13)
    if i.op in ('stm', 'ldm') and i.wback:
        out.add(i.n)
    if i.op in ('bl', 'blx'):
        out.add(14)
    return out


def execute(i, s, pc_read_bias=4):
    """Applies i to s. Returns 'pc-loaded' if the PC came from memory (bit 0 then is not constrained),
    'branch' when control was transferred, else None."""
    pc = s.r[15]
    c_in = s.flag(C_)

    def reg(n):
        return (pc + pc_read_bias) & M32 if n == 15 else s.r[n]

    op = i.op
    nxt = (pc + i.size) & M32
    setf = i.s == S_ALWAYS or (i.s == S_NOTIT and not s.in_it)
    res = carry = over = None
    if op in ('add', 'sub', 'adc', 'sbc', 'rsb', 'cmp', 'cmn'):
        a = reg(i.n)
        b = reg(i.m) if i.m is not None else i.imm
        if op in ('add', 'cmn'): res, carry, over = add_carry(a, b, 0)
        elif op == 'adc': res, carry, over = add_carry(a, b, c_in)
        elif op == 'sbc': res, carry, over = add_carry(a, b ^ M32, c_in)
        elif op == 'rsb': res, carry, over = add_carry(a ^ M32, b, 1)
        else: res, carry, over = add_carry(a, b ^ M32, 1)
    elif op == 'and': res = s.r[i.n] & s.r[i.m]
    elif op == 'eor': res = s.r[i.n] ^ s.r[i.m]
    elif op == 'orr': res = s.r[i.n] | s.r[i.m]
    elif op == 'bic': res = s.r[i.n] & ~s.r[i.m]
    elif op == 'shift':
        n = i.sn if i.sn is not None else s.r[i.m] & 0xff
        res, carry = shift_c(s.r[i.n], i.st, n, c_in)
    elif op == 'tst':
        b, carry = shift_c(s.r[i.m], i.st, i.sn or 0, c_in)
        res = s.r[i.n] & b
    elif op == 'mov':
        res = reg(i.m) if i.m is not None else i.imm
        carry = i.x
    elif op == 'mvn':
        b, carry = shift_c(s.r[i.m], i.st, i.sn or 0, c_in)
        res = b ^ M32
    elif op == 'mul': res = (s.r[i.n] * s.r[i.m]) & M32
    elif op == 'adr': res = (((pc + 4) & ~3) + i.imm) & M32
    elif op == 'ext':
        v = ror32(s.r[i.m], i.sn) & ((1 << i.msize) - 1)
        res = (sx(v, i.msize) if i.signed else v) & M32
    elif op == 'rev':
        v = s.r[i.m]
        b = [(v >> (8 * k)) & 0xff for k in range(4)]
        if i.x == 'rev': res = b[0] << 24 | b[1] << 16 | b[2] << 8 | b[3]
        elif i.x == 'rev16': res = b[2] << 24 | b[3] << 16 | b[0] << 8 | b[1]
        else: res = sx(b[0] << 8 | b[1], 16) & M32
    if res is not None:
        s.r[15] = nxt
        kind = None
        if i.d is not None:
            if i.d == 15:
                s.r[15] = res & ~1
                kind = 'branch'
            else:
                s.setreg(i.d, res)
        if setf:
            s.setf(N_, res >> 31)
            s.setf(Z_, int(res == 0))
            if carry is not None: s.setf(C_, carry)
            if over is not None: s.setf(V_, over)
        return kind
    if op in ('ldr', 'str', 'ldrlit'):
        if op == 'ldrlit':
            addr = ((pc + 4) & ~3) + i.imm
        else:
            off = i.imm if i.imm is not None else (s.r[i.m] << i.sn) & M32
            addr = s.r[i.n] + off
        if op == 'str':
            s.store(addr, s.r[i.t], i.msize)
        else:
            v = s.load(addr, i.msize)
            if i.signed:
                v = sx(v, i.msize) & M32
            if i.t == 15:
                s.r[15] = v
                return 'pc-loaded'
            s.setreg(i.t, v)
        s.r[15] = nxt
        return None
    if op in ('push', 'stm'):
        cnt = 4 * popcount(i.regs)
        base = (s.r[13] - cnt) & M32 if op == 'push' else s.r[i.n]
        a = base
        for k in range(15):
            if (i.regs >> k) & 1:
                s.store(a, s.r[k], 32)
                a += 4
        if op == 'push':
            s.setreg(13, base)
        elif i.wback:
            s.setreg(i.n, base + cnt)
        s.r[15] = nxt
        return None
    if op in ('pop', 'ldm'):
        base = s.r[13] if op == 'pop' else s.r[i.n]
        a = base
        cnt = 4 * popcount(i.regs)
        newpc, kind = nxt, None
        vals = []
        for k in range(16):
            if (i.regs >> k) & 1:
                vals.append((k, s.load(a, 32)))
                a += 4
        if op == 'pop':
            s.setreg(13, base + cnt)
        elif i.wback:
            s.setreg(i.n, base + cnt)
        for k, v in vals:
            if k == 15:
                newpc, kind = v, 'pc-loaded'
            else:
                s.setreg(k, v)
        s.r[15] = newpc
        return kind
    if op in ('b', 'bl'):
        if cond_holds(i.cond, s):
            if op == 'bl':
                s.r[14] = nxt | 1
            s.r[15] = (pc + 4 + i.imm) & M32
            return 'branch'
        s.r[15] = nxt
        return None
    if op in ('bx', 'blx'):
        t = reg(i.m) & ~1
        if op == 'blx':
            s.r[14] = nxt | 1
        s.r[15] = t
        return 'branch'
    if op == 'cps':
        dis, a, f = i.x
        if s.privileged:
            if a: s.primask = dis
            if f: s.faultmask = dis
        s.r[15] = nxt
        return None
    if op == 'mrs':
        sy = i.x
        v = 0
        if sy < 8:
            if sy & 1: v |= s.xpsr & 0x1ff
            if not sy & 4:
                v |= s.xpsr & 0xf8000000
                if s.dsp: v |= s.xpsr & 0x000f0000
        elif sy in (8, 9):
            if s.privileged: v = s.msp if sy == 8 else s.psp
        elif sy == 16: v = s.primask & 1 if s.privileged else 0
        elif sy in (17, 18): v = s.basepri & 0xff if s.privileged else 0
        elif sy == 19: v = s.faultmask & 1 if s.privileged else 0
        elif sy == 20: v = s.control & (7 if s.fp else 3)
        s.r[i.d] = v
        s.r[15] = nxt
        return None
    if op == 'msr':
        sy, mask = i.x
        v = s.r[i.n]
        if sy < 8:
            if not sy & 4:
                if mask & 1 and s.dsp:
                    s.xpsr = (s.xpsr & ~0xf0000) | (v & 0xf0000)
                if mask & 2:
                    s.xpsr = (s.xpsr & ~0xf8000000) | (v & 0xf8000000)
        elif s.privileged:
            if sy == 8:
                s.msp = v & ~3
                if not s.control & 2: s.r[13] = s.msp
            elif sy == 9:
                s.psp = v & ~3
                if s.control & 2: s.r[13] = s.psp
            elif sy == 16: s.primask = v & 1
            elif sy == 17: s.basepri = v & 0xff
            elif sy == 18:
                if v & 0xff and (v & 0xff < s.basepri or not s.basepri): s.basepri = v & 0xff
            elif sy == 19: s.faultmask = v & 1
            elif sy == 20:
                m = 1 | (0 if s.handler else 2) | (4 if s.fp else 0)
                s.control = (s.control & ~m) | (v & m)
                s.r[13] = s.psp if s.control & 2 else s.msp
        s.r[15] = nxt
        return None
    assert op == 'nop', op
    s.r[15] = nxt
    return None
