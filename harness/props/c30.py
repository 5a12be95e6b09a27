"""C30: register dumps, representations and decoder listings against the state they describe."""
import contextlib, io, re
import core
from core import cm, Machine, random_state, encodings, hexw, tobytes, real_decode, UNDEF, UNPRED
from props.c21 import Table

DUMPED = dict([('r%d' % k, k) for k in range(13)] + [('sp', 13), ('lr', 14), ('pc', 15)])


def printed(f, *a):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        f(*a)
    return out.getvalue()


def snapshot(m):
    r, sp = m.regs()
    return r, sp, [int(m.cpu.read_register(k)) for k in range(0x40, 0x60)], m.cpu.mode


def look(ctx, m, s, how):
    """One look at a CPU, and what it should have shown."""
    before = snapshot(m)
    r, sp = before[0], before[1]
    at = len(m.rec.log)
    what = {'shown_by': how, 'machine': m.kind, 'registers': [hex(v) for v in r], 'control': sp['control']}
    ctx.case((how, r[0], r[15], sp['xpsr'], sp['control']), what)
    if how == 'dump':
        text = printed(m.cpu.dump)
        got = [(n.lower(), int(v, 16)) for n, v in re.findall(r'(\w+)\s*[=:]\s*(?:0x)?([0-9a-fA-F]{8})\b', text)]
        want = [(n, r[k]) for n, k in DUMPED.items()]
        if sorted(got) != sorted(want):
            ctx.violate('dump', dict(what, text=text, differs=sorted(set(got) ^ set(want)), printed=len(got)))
        ctx.count('dumps')
    else:
        text = repr(m.cpu) if how == 'repr' else '%s' % (m.cpu,) if how == 'str' else '%r' % [m.cpu]
        g = re.search(r'pc=(?:0x)?([0-9a-fA-F]+) xpsr=(?:0x)?([0-9a-fA-F]+) rN=\[([0-9a-fA-Fx ]*)\]', text)
        if not g or m.cpu.__class__.__name__ not in text:
            ctx.violate('repr', dict(what, text=text))
            return
        got = (int(g.group(1), 16), int(g.group(2), 16), [int(v, 16) for v in g.group(3).split()])
        if got != (r[15], sp['xpsr'], r[:15]):
            ctx.violate('repr', dict(what, text=text, want=(hex(r[15]), hex(sp['xpsr']))))
        ctx.count('reprs')
    if m.rec.log[at:]:
        ctx.violate('memory-touched', dict(what, accesses=m.rec.log[at:]))
    if snapshot(m) != before:
        ctx.violate('state-changed', dict(what, before=before, after=snapshot(m)))


def facts(i):
    return i.mnemonic, i.size, i.address, bytes(i.bytes), repr([str(o) for o in i.operands])


def instruction(ctx, rng, fmt, enc):
    h1, h2, mi = enc.pick(rng)
    i = real_decode(tobytes(h1, h2), core.even_pc(rng))
    if i in (UNDEF, UNPRED):
        return
    what = {'instruction': hexw(h1, h2)}
    ctx.case(('i', h1, h2), what)
    line = fmt.format(i) if rng.random() < .5 else None
    before = facts(i)
    text = repr(i)
    body = text.split(' ', 1)[1].strip('> ') if ' ' in text else text
    words = body.split()
    hexes = [w.lower() for w in words[1:] if re.match(r'^(0x)?[0-9a-fA-F]+$', w)]
    digits = ''.join(w[2:] if w.startswith('0x') else w for w in hexes)
    want = ['%04x' % h1] if h2 is None else ['%04x%04x' % (h1, h2), '%04x%04x' % (h2, h1)]
    if not words or not i.mnemonic.startswith(words[0]) or digits not in want:
        ctx.violate('instruction', dict(what, text=text, mnemonic=i.mnemonic))
    if facts(i) != before or (line is not None and fmt.format(i) != line):
        ctx.violate('instruction-changed', dict(what, before=before, after=facts(i)))
    ctx.count('instructions')


def entries(text):
    """[(wide, mnemonic, mask, match)] as a decoder listing shows them."""
    out, wide = [], None
    for l in text.splitlines():
        if l.startswith('16-bit'): wide = False
        elif l.startswith('32-bit'): wide = True
        g = re.search(r'<Decoder@\S+ (\S+) ([0-9a-f]+)/([0-9a-f]+) ', l)
        if g: out.append((wide, g.group(1), int(g.group(2), 16), int(g.group(3), 16)))
    return out


def tables(ctx, rng):
    t = Table(ctx, rng)
    for _ in range(rng.choice((0, 1, 2, 3, 5, 8, 14, 30, 60))): t.add()
    for rnd in range(3):
        t.tree.build()
        words = []
        for e in t.entries:
            w = e['match'] | rng.getrandbits(32) & ~e['mask']
            words.append((w, 4) if e['wide'] else (w & 0xffff, 2))

        def result(w, n):
            try:
                i = t.tree.decode(bytearray((w >> (8 * k)) & 255 for k in range(n)), 0)
                return i.mnemonic, i.seen
            except (cm.Undefined, cm.Unpredictable) as e:
                return type(e).__name__
        what = {'table': [e['specs'] for e in t.entries]}
        before = [result(*w) for w in words]
        del t.calls[:]
        text = printed(t.tree.dump)
        ctx.case(('t', text.count('\n'), len(t.entries), rng.getrandbits(30)), what)
        want = sorted((e['wide'], 'op%d' % e['k'], e['mask'], e['match']) for e in t.entries)
        got = sorted(entries(text), key=str)
        if got != sorted(want, key=str):
            ctx.violate('listing', dict(what, missing=[x for x in want if x not in got],
                                        extra=[x for x in got if x not in want], shown=len(got), text=text[:2000]))
        if t.calls: ctx.violate('listing-decodes', what)
        if [result(*w) for w in words] != before:
            ctx.violate('listing-changes-decoding', what)
        ctx.count('listings')
        ctx.count('listed', len(got))
        for _ in range(rng.randrange(1, 4)): t.add()


def run(ctx):
    rng, enc = ctx.rng, encodings()
    text = printed(cm.decoder.dump)
    shipped = entries(text)
    for h in range(ctx.shard, 0x10000, ctx.nshards):
        ctx.case(None, {'halfword': hex(h)})
        i = real_decode(tobytes(h)) if not core.arm.is32(h) else UNDEF
        if i not in (UNDEF, UNPRED):
            if not any(not w and i.mnemonic.startswith(n) and h & a == b for w, n, a, b in shipped):
                ctx.violate('shipped-listing', {'halfword': hex(h), 'decodes_as': i.mnemonic})
            ctx.count('shipped_entries_used')
    for _ in range(ctx.n(4000, 40000)):
        h1, h2, mi = enc.pick(rng)
        i = real_decode(tobytes(h1, h2))
        w = h1 | (h2 or 0) << 16
        ctx.case(None, {'instruction': hexw(h1, h2)})
        if i not in (UNDEF, UNPRED) and not any(
                x == (h2 is not None) and i.mnemonic.startswith(n) and w & a == b for x, n, a, b in shipped):
            ctx.violate('shipped-listing', {'instruction': hexw(h1, h2), 'decodes_as': i.mnemonic})
    if printed(cm.decoder.dump) != text:
        ctx.violate('shipped-listing-changed', {'lines': text.count('\n')})

    class Board(cm.ConfCpu):
        """Somebody's own kind of CPU."""
    m = None
    for k in range(ctx.n(24000, 400000)):
        if k % 500 == 0:
            ms = [Machine('mock', rng), Machine('sparse', rng), Machine('mock', rng, layout=[]),
                  Machine('sparse', rng, cpu=Board()), Machine('mock', rng, cpu=cm.CpuModel())]
        m = rng.choice(ms)
        m2 = rng.choice(ms)
        s = random_state(rng, m.mem0)
        if m.cpu.__class__ is cm.CpuModel: s.in_it = s.dsp = s.fp = False
        q = rng.random()
        if q < .1: s.r = [rng.choice((0, 1, 0xf, 0xffffffff, 0x80000000, rng.getrandbits(4))) for _ in range(16)]
        if q > .9: s.r[15] |= 1
        try: m.load_state(s)
        except AttributeError:
            if m.cpu.__class__ is not cm.CpuModel: raise
        mem0 = m.mem0
        for _ in range(rng.choice((1, 1, 2, 4))):
            look(ctx, m, s, rng.choice(('dump', 'dump', 'repr', 'repr', 'str', 'list')))
            q = rng.random()
            if q < .3: m.cpu.write_register(rng.choice((-4, 13, 14, 15, 16, 17, 18, rng.randrange(13))), core.value(rng))
            elif q < .4: m.cpu.s[rng.randrange(32)] = core.value(rng)
            elif q < .5 and m2 is not m:     # the same CPU on another delegate
                a, b = m.cpu.delegate, m2.cpu.delegate
                m.cpu.delegate, m2.cpu.delegate = b, a
                m.backend, m2.backend, m.rec, m2.rec = m2.backend, m.backend, m2.rec, m.rec
                m.mem0, m2.mem0, m.kind, m2.kind = m2.mem0, m.mem0, m2.kind, m.kind
                m.problems, m2.problems = m2.problems, m.problems
                ctx.count('delegates_swapped')
        d = m.mem_diffs(m.mem0) if k % 50 == 0 else None
        if d: ctx.violate('memory-changed', {'machine': m.kind, 'changes': d[:4]})
        if not k % 2:
            instruction(ctx, rng, rng.choice((cm.Formatter(m.cpu), cm.Formatter(None))), enc)
        if not k % 20:
            tables(ctx, rng)
