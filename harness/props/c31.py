"""C31: added encodings, instruction classes and operands against what they were given to say and do."""
import operator
import core
from core import cm, Machine, random_state, hexw, tobytes, UNDEF, UNPRED
from props.c21 import gen_spec, layout, spell

REGN = ['r%d' % k for k in range(13)] + ['sp', 'lr', 'pc']
SREG = dict([(0, 'APSR'), (1, 'IAPSR'), (2, 'EAPSR'), (3, 'XPSR'), (5, 'IPSR'), (6, 'EPSR'), (7, 'IEPSR'), (8, 'MSP'),
             (9, 'PSP'), (16, 'PRIMASK'), (17, 'BASEPRI'), (18, 'BASEPRI_MAX'), (19, 'FAULTMASK'), (20, 'CONTROL')])
FULL = ('nop', 'yie', 'wfe', 'wfi', 'sev', 'isb', 'dsb', 'dmb', 'cps')
MASKS = {1: '_g', 2: '_nzcvq', 3: '_nzcvqg'}


# ------------------------------------------------------------------ operands

def ranges(mask):
    out, k = [], 0
    while k < 16:
        if mask >> k & 1:
            j = k
            while j < 15 and mask >> (j + 1) & 1: j += 1
            out.append(REGN[k] if j == k else '%s-%s' % (REGN[k], REGN[j]))
            k = j
        k += 1
    return '{%s}' % ','.join(out)


def own_operand(text, comments, seen):
    class Own(cm.formatter.Operand):
        def format(self, formatter):
            seen.append((formatter.instruction, formatter.cpu))
            for c in comments: formatter.add_comment(c)
            return text
    return Own()


def build(rng, addr, seen, depth=0):
    """(operand, its text or None, its comments in order, its kind)"""
    f, bs = cm.formatter, cm.bitstring
    kinds = ['reg', 'reglist', 'imm', 'imm', 'label', 'shift', 'barrier', 'cps', 'special', 'own', 'mem']
    k = rng.choice(kinds[:-1] if depth > 2 else kinds + ['mem'])
    if k == 'reg':
        r, w = rng.randrange(16), rng.random()
        o = f.RegisterOperand(r) if w < .4 else f.RegisterOperand(r, wback=w < .7) if w < .9 else f.RegisterOperand(r, w < .95)
        return o, REGN[r] + ('!' if .4 <= w < .7 or .9 <= w < .95 else ''), [], k
    if k == 'reglist':
        n = 16
        m = rng.choice((rng.getrandbits(16), 1 << rng.randrange(16), 0xffff, 0, 0xffff ^ 1 << rng.randrange(16),
                        (0xffff << rng.randrange(16)) & 0xffff)) & ((1 << n) - 1)
        return f.ReglistOperand(bs(m, n)), ranges(m), [], k
    if k == 'imm':
        v = rng.choice((0, 0, 1, 9, 10, 11, -1, -9, -10, -255, -4095, 255, 256, 0xffffffff, rng.getrandbits(rng.randrange(1, 33))))
        h = rng.random() < .4
        o = f.ImmediateOperand(v, hideIfZero=True) if h and rng.random() < .7 else f.ImmediateOperand(v, True) if h else \
            f.ImmediateOperand(v)
        if v >= 0 and not h and rng.random() < .3: o = f.ImmediateOperand(bs(v, 32))
        return o, None if h and v == 0 else '#%d' % v, ['0x%x' % v] if v > 9 else [], k
    if k == 'label':
        off = rng.choice((0, 2, 4, -2, -4, 1020, -1020, 4095, -4095, -0x1000000, 0xfffffe, rng.randrange(-5000, 5000)))
        al = rng.choice((1, 1, 2, 4, 4, 8))
        base = (addr + 4) // al * al
        o = f.LabelOperand(off) if al == 1 else f.LabelOperand(off, align=al) if rng.random() < .7 else f.LabelOperand(off, al)
        return o, '.%+d' % (base + off - addr), ['0x%x' % ((base + off) % (1 << 32))], k
    if k == 'shift':
        t = rng.choice(list(cm.helpers.SRType))
        n = rng.choice((0, 1, 2, 7, 8, 15, 16, 24, 31, 32, rng.randrange(33)))
        name = t.name.split('_')[-1]
        return f.ShiftRotateOperand(t, n), None if name == 'None' else '%s #%d' % (name, n), [], k
    if k == 'barrier':
        n = rng.randrange(16)
        return f.BarrierOperand(n), 'sy' if n == 15 else '#%d' % n, [], k
    if k == 'cps':
        a, b = rng.random() < .5, rng.random() < .5
        return f.CpsOperand(a, b), 'i' * a + 'f' * b, [], k
    if k == 'special':
        n, m = rng.choice(sorted(SREG)), rng.choice((None, None, 1, 2, 3))
        o = f.SpecialRegisterOperand(bs(n, 8)) if m is None and rng.random() < .5 else \
            f.SpecialRegisterOperand(bs(n, 8), None if m is None else bs(m, 2))
        return o, SREG[n] + (MASKS[m] if m and n < 4 else ''), [], k
    if k == 'own':
        t = rng.choice((None, '', 'x', 'own #%d' % rng.randrange(9), '{a}', '%s', 'p0'))
        c = ['c%d' % rng.randrange(99) for _ in range(rng.choice((0, 0, 1, 2, 3)))]
        return own_operand(t, c, seen), t, c, k
    parts = [build(rng, addr, seen, depth + 1) for _ in range(rng.choice((0, 1, 2, 2, 2, 3)))]
    w = rng.random()
    o = f.MemoryAccessOperand(*[p[0] for p in parts], **({'wback': w < .35} if w < .7 else {}))
    return o, '[%s]' % ', '.join(p[1] for p in parts if p[1] is not None) + ('!' if w < .35 else ''), \
        [c for p in parts for c in p[2]], k


def operands(ctx, rng):
    """A made-up instruction with made-up operands, printed by several formatters."""
    cpu = cm.CpuModel()
    cpu.delegate = cm.Mock()
    fmts = [(cm.Formatter(c), c) for c in (cpu, None, cm.CpuModel())]
    pool = []
    for _ in range(rng.randrange(1, 5)):
        wide = rng.random() < .5
        word = rng.getrandbits(32 if wide else 16)
        mn = rng.choice(('x', 'nop', 'abcdefgh', 'abcdefghij', 'mov.w', 'v.f32'))
        i = cm.dmod.Instruction(mn, word, wide)
        addr = 0 if rng.random() < .1 else min(rng.choice((core.even_pc(rng), rng.getrandbits(32))), 0xfffffef0)
        if addr or rng.random() < .5: i.address = addr
        seen = []
        ops = [build(rng, addr, seen) for _ in range(rng.choice((0, 1, 1, 2, 2, 3, 4, 7)))]
        i.operands = [o[0] for o in ops] if rng.random() < .8 else tuple(o[0] for o in ops)
        pool.append((i, mn, word, wide, addr, ops, seen))
    for _ in range(len(pool) * 3):
        i, mn, word, wide, addr, ops, seen = rng.choice(pool)
        fm, c = rng.choice(fmts)
        del seen[:]
        got = fm.format(i)
        halves = '%04x' % (word & 0xffff) + (' %04x' % (word >> 16) if wide else '')
        text = '{0:<12} {1:<8}'.format(halves, mn) + ', '.join(o[1] for o in ops if o[1] is not None)
        notes = [x for o in ops for x in o[2]]
        want = '{0:<36} ; {1}'.format(text, ' '.join(notes)) if notes else text
        what = {'kinds': [o[3] for o in ops], 'address': hex(addr), 'got': got, 'want': want}
        ctx.case(('operands', want, addr), what)
        ctx.count('lines')
        for o in ops: ctx.count('operand_' + o[3])
        # layout is not judged: the fields are
        g, _, gc = got.partition(' ; ')
        if [g[:len(halves)]] + g[len(halves):].split() != [halves] + text[len(halves):].split() or \
                gc.split() != notes or not g[len(halves):].strip().startswith(mn):
            ctx.violate('line', what)
        if any(s[0] is not i or s[1] is not c for s in seen):
            ctx.violate('formatter-context', what)
        if i.address != addr or i.size != (4 if wide else 2) or i.mnemonic != mn or \
                bytes(i.bytes) != word.to_bytes(4 if wide else 2, 'little'):
            ctx.violate('instruction', what)


# ------------------------------------------------------------------ encodings

def klass(rng, log):
    """An instruction class of our own, and what is special about it."""
    base = cm.dmod.Instruction
    kind = rng.choice(('plain', 'plain', 'mnemonic', 'execute', 'both', 'double'))

    def mnemonic(self): return 'my_' + self.note

    def execute(self, cpu):
        log.append(self)
        cpu.r[self.rd] = cpu.r[self.rn] ^ self.imm
        return super(Own, self).execute(cpu)

    def double(self, cpu):
        log.append(self)
        super(Own, self).execute(cpu)
        super(Own, self).execute(cpu)
    d = {}
    if kind in ('mnemonic', 'both'): d['mnemonic'] = property(mnemonic)
    if kind in ('execute', 'both'): d['execute'] = execute
    if kind == 'double': d['execute'] = double
    extra = rng.choice(('', '', 'default', 'init'))
    if extra == 'default': d.update(note='class', imm=None, rd=99)
    if extra == 'init':
        def __init__(self, *a, **kw):
            self.tags = []
            super(Own, self).__init__(*a, **kw)
            self.note = 'init'
        d['__init__'] = __init__
    Own = type('Own', (base,), d)
    return Own, kind


class Extension(object):
    """Encodings added to the decoder that everything shares, and what each was given."""

    def __init__(self, ctx, rng):
        self.ctx, self.rng = ctx, rng
        self.added = []
        self.log = []
        self.calls = []
        self.words = []
        self.fmt = cm.Formatter(None)
        for _ in range(6000):
            h1, h2, _ = core.encodings().pick(rng) if rng.random() < .8 else (rng.getrandbits(16), rng.getrandbits(16), 0)
            if h1 & 0xf800 in (0xe800, 0xf000, 0xf800):
                if h2 is None: h2 = rng.getrandbits(16)
            else: h2 = None
            self.words.append((h1, h2, self.facts(h1, h2)))

    def facts(self, h1, h2):
        """How a word decodes, by what can be seen of it."""
        try:
            if self.rng.random() < .5: i = cm.decoder.decode(tobytes(h1, h2), 0x1000)
            else: i = next(cm.Disassembler().disasm(bytes(tobytes(h1, h2)) + b'\0\xbf\0\xbf', 0x1000))
        except cm.Undefined: return UNDEF
        except cm.Unpredictable: return UNPRED
        return type(i), self.fmt.format(i), i.size

    def add(self):
        rng = self.rng
        wide = rng.random() < .5
        names = set()
        if rng.random() < .6:       # where nothing is
            for _ in range(200):
                h1 = rng.getrandbits(16)
                if wide: h1 |= 0xe800 if h1 & 0x1000 else 0xf000
                if (h1 & 0xf800 in (0xe800, 0xf000, 0xf800)) != wide: continue
                h2 = rng.getrandbits(16) if wide else None
                if self.facts(h1, h2) == UNDEF: break
            else: return
        else:                       # inside an encoding that exists
            for _ in range(200):
                h1, h2, _ = core.encodings().pick(rng)
                if (h2 is not None) == wide: break
            else: return
        # nearly all bits fixed, so that it is the most specific one there
        k = [0]

        def elems(h, fixed_top):
            out, free = [], rng.choice((0, 1, 1, 2, 3, 4))
            at = rng.randrange(fixed_top, 16 - free + 1)
            for b in range(16):
                if at <= b < at + free:
                    if b == at:
                        k[0] += 1
                        out.append(('fld%c' % (96 + k[0]), free, None))
                    continue
                v = h >> (15 - b) & 1
                if rng.random() < .2:
                    k[0] += 1
                    out.append(('fix%c' % (96 + k[0]), 1, v))
                else: out.append((None, 1, v))
            return out
        parts = [spell(rng, elems(h1, 5))] + ([spell(rng, elems(h2, 0))] if wide else [])
        mask, match, fields = layout(parts[0][1])
        if wide:
            m2, v2, f2 = layout(parts[1][1], 16)
            mask |= m2
            match |= v2
            fields.update(f2)
        if any(mask & e['mask'] & (match ^ e['match']) == 0 and e['wide'] == wide for e in self.added):
            return                  # overlaps one added earlier: which wins is not what this is about
        free = [b for b in range(32 if wide else 16) if not mask >> b & 1]
        for v in range(1 << len(free)):
            if v > 255: break
            w = match | sum((v >> j & 1) << b for j, b in enumerate(free))
            f = self.facts(w & 0xffff, w >> 16 if wide else None)
            if f != UNDEF and len(free) > (2 if wide else 1): return
            if f not in (UNDEF, UNPRED) and f[1].split()[2 if wide else 1][:3] in FULL:
                return              # what is there has no operand bits to speak of: neither is more specific
        n = len(self.added)
        Own, kind = klass(rng, self.log)
        e = {'n': n, 'wide': wide, 'specs': [p[0] for p in parts], 'mask': mask, 'match': match, 'fields': fields,
             'class': Own, 'kind': kind, 'mnemonic': 'ext%d' % n, 'seen': [],
             'kw': {'note': 'n%d' % n, 'rd': rng.randrange(13), 'rn': rng.randrange(13),
                    'imm': rng.getrandbits(32) & core.M32},
             'mode': rng.choice(('take', 'take', 'take', 'take', 'decline', 'refuse'))}
        e['kw']['imm'] = cm.bitstring(e['kw']['imm'], 32)

        def handler(i, **attrs):
            self.calls.append((n, i, dict((a, (v.unsigned, v.width)) for a, v in attrs.items()),
                               dict((a, getattr(i, a, None)) for a in e['kw']), (i.size, bytes(i.bytes))))
            if hasattr(i, 'tags'): i.tags.append(n)
            if e['mode'] == 'decline': raise cm.dmod.DecodeError()
            if e['mode'] == 'refuse': raise cm.Unpredictable()
            i.operands = [cm.formatter.RegisterOperand(e['kw']['rd']), cm.formatter.ImmediateOperand(n)]
            i.fields = attrs
        wrapped = cm.dmod.instr(e['mnemonic'], Own, *e['specs'], **e['kw'])(handler)
        if wrapped is not handler:
            self.ctx.violate('decorator-result', {'specs': e['specs'], 'got': repr(wrapped)})
        self.added.append(e)

    def entry(self, h1, h2):
        w = h1 | (h2 or 0) << 16
        for e in self.added:
            if e['wide'] == (h2 is not None) and w & e['mask'] == e['match']: return e

    def word(self, e):
        w = e['match'] | self.rng.getrandbits(32) & ~e['mask']
        return (w & 0xffff, w >> 16) if e['wide'] else (w & 0xffff, None)

    def want_text(self, e, h1, h2):
        mn = 'my_' + e['kw']['note'] if e['kind'] in ('mnemonic', 'both') else e['mnemonic']
        return mn, [mn, REGN[e['kw']['rd']] + ',', '#%d' % e['n']] + ([';', '0x%x' % e['n']] if e['n'] > 9 else [])

    def check(self, before):
        """One of the added words, right after the table was rebuilt."""
        ctx, rng = self.ctx, self.rng
        e = rng.choice(self.added)
        h1, h2 = self.word(e)
        addr = core.even_pc(rng) if rng.random() < .7 else 0x1000
        data = tobytes(h1, h2)
        what = {'word': hexw(h1, h2), 'specs': e['specs'], 'mode': e['mode'], 'class': e['kind']}
        ctx.case(('added', e['n'], h1, h2), what)
        del self.calls[:]
        try:
            if rng.random() < .5: i = cm.decoder.decode(data, addr)
            else:
                i = next(iter(cm.Disassembler().disasm(data + bytes(rng.getrandbits(8) for _ in range(4)), addr)))
        except cm.Undefined: i = UNDEF
        except cm.Unpredictable: i = UNPRED
        mine = [c for c in self.calls if c[0] == e['n']]
        w = h1 | (h2 or 0) << 16
        fields = dict((a, ((w >> p) & ((1 << n) - 1), n)) for a, (p, n) in e['fields'].items())
        if len(mine) != 1 or mine[0][2] != fields or any(
                mine[0][3][a] is not v and mine[0][3][a] != v for a, v in e['kw'].items()) or \
                mine[0][4] != (len(data), bytes(data)):
            ctx.violate('handler', dict(what, calls=[c[2:] for c in mine], want=fields, address=hex(addr)))
        if e['mode'] == 'refuse':
            if i != UNPRED: ctx.violate('refused', dict(what, got=repr(i)))
            ctx.count('refused')
            return
        if e['mode'] == 'decline':
            # as though it had not been added
            if i in (UNDEF, UNPRED): got = i
            else: got = None if isinstance(i, tuple(x['class'] for x in self.added)) else (type(i), i.size)
            if got is None or got != UNDEF and self.base.get((h1, h2), got) != got:
                ctx.violate('declined', dict(what, got=repr(i)))
            ctx.count('declined')
            return
        mn, text = self.want_text(e, h1, h2)
        if i in (UNDEF, UNPRED) or type(i) is not e['class'] or i.mnemonic != mn or i.address != addr or \
                bytes(i.bytes) != bytes(data) or i.size != len(data) or i.note != e['kw']['note'] or \
                getattr(i, 'tags', [e['n']]) != [e['n']]:
            ctx.violate('decoded', dict(what, got=repr(i), want=mn))
            return
        got = self.fmt.format(i)
        if got.split()[2 if e['wide'] else 1:] != text:
            ctx.violate('text', dict(what, got=got, want=text))
        if mine[0][1] is not i:
            ctx.violate('handler-instruction', what)
        ctx.count('added_decoded')
        self.run(e, i, addr, what)

    def run(self, e, i, addr, what):
        """Executes it once on a recorded machine."""
        ctx, rng = self.ctx, self.rng
        m = Machine('mock' if rng.random() < .5 else 'sparse', rng)
        s = random_state(rng, m.mem0)
        s.r[15] = addr
        m.load_state(s)
        r0, sp0 = m.regs()
        mem0 = core.State(m.mem0.copy()).mem
        del self.log[:]
        del m.rec.log[:]
        if rng.random() < .5: i.execute(m.cpu)
        else: m.cpu.execute(iter([i]))
        r1, sp1 = m.regs()
        want = list(r0)
        if e['kind'] in ('execute', 'both'): want[e['kw']['rd']] = r0[e['kw']['rn']] ^ int(e['kw']['imm'])
        want[15] = (r0[15] + i.size * (2 if e['kind'] == 'double' else 1)) & core.M32
        if r1 != want or sp1 != sp0 or m.rec.log or m.mem_diffs(mem0):
            ctx.violate('executed', dict(what, before=[hex(v) for v in r0], after=[hex(v) for v in r1],
                                         want=[hex(v) for v in want], accesses=m.rec.log[:4]))
        if self.log != ([i] if e['kind'] in ('execute', 'both', 'double') else []):
            ctx.violate('override-not-run-once', dict(what, runs=len(self.log)))
        ctx.count('added_executed')

    def stream(self):
        """A stream of added and shipped encodings."""
        ctx, rng = self.ctx, self.rng
        data, want = b'', []
        addr = core.even_pc(rng) & 0xffffff
        live = [e for e in self.added if e['mode'] == 'take']
        if not live: return
        for _ in range(rng.randrange(1, 14)):
            if rng.random() < .5:
                e = rng.choice(live)
                h1, h2 = self.word(e)
                want.append((addr + len(data), e['class'], 4 if e['wide'] else 2))
            else:
                h1, h2, f = rng.choice(self.words)
                if f in (UNDEF, UNPRED) or self.entry(h1, h2): continue
                want.append((addr + len(data), f[0], f[2]))
            data += bytes(tobytes(h1, h2))
        what = {'data': data.hex(), 'address': hex(addr)}
        ctx.case(('stream', data), what)
        got = [(i.address, type(i), i.size) for i in cm.Disassembler().disasm(data, addr)]
        if got != want:
            ctx.violate('stream', dict(what, got=[repr(g) for g in got], want=[repr(g) for g in want]))
        ctx.count('mixed_streams')

    def others(self, k):
        """Words that none of the added encodings matches decode as they always did."""
        ctx, rng = self.ctx, self.rng
        for _ in range(k):
            h1, h2, f = rng.choice(self.words)
            if self.entry(h1, h2): continue
            ctx.case(('other', h1, h2, len(self.added)), {'word': hexw(h1, h2)})
            now = self.facts(h1, h2)
            if now != f:
                ctx.violate('others-changed', {'word': hexw(h1, h2), 'before': repr(f), 'now': repr(now),
                                               'added': [e['specs'] for e in self.added]})
            ctx.count('unmatched_words')

    def near(self):
        """A word one fixed bit away from an added encoding is not that encoding."""
        ctx, rng = self.ctx, self.rng
        e = rng.choice(self.added)
        h1, h2 = self.word(e)
        w = (h1 | (h2 or 0) << 16) ^ (1 << rng.randrange(32 if e['wide'] else 11))
        if w & e['mask'] == e['match']: return
        h1, h2 = w & 0xffff, (w >> 16 if e['wide'] else None)
        if (h1 & 0xf800 in (0xe800, 0xf000, 0xf800)) != e['wide'] or self.entry(h1, h2): return
        ctx.case(('near', h1, h2), {'word': hexw(h1, h2), 'specs': e['specs']})
        del self.calls[:]
        f = self.facts(h1, h2)
        if self.calls or f not in (UNDEF, UNPRED) and issubclass(f[0], tuple(x['class'] for x in self.added)):
            ctx.violate('near-miss', {'word': hexw(h1, h2), 'specs': e['specs'], 'got': repr(f)})
        ctx.count('near_misses')


def run(ctx):
    rng = ctx.rng
    for _ in range(ctx.n(9000, 200000)): operands(ctx, rng)
    x = Extension(ctx, rng)
    x.base = {}
    for rnd in range(ctx.n(240, 1600)):
        n = len(x.added)
        for _ in range(rng.choice((1, 1, 2, 5))): x.add()
        if len(x.added) == n: continue
        for e in x.added[n:]:
            # how its words decode while it is not in force yet
            for _ in range(12):
                h1, h2 = x.word(e)
                del x.calls[:]
                f = x.facts(h1, h2)
                if any(c[0] == e['n'] for c in x.calls): ctx.count('in_force_before_rebuild')
                if f in (UNDEF, UNPRED): x.base[h1, h2] = f
                else: x.base[h1, h2] = (f[0], f[2])
        cm.decoder.build()
        ctx.count('rebuilds')
        for _ in range(30): x.check(x.base)
        for _ in range(6): x.stream()
        for _ in range(20): x.near()
        x.others(120)
        if rng.random() < .1:
            cm.decoder.build()      # again, with nothing new
