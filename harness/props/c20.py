"""C20: the pseudo-code helpers against the manual's definitions on plain integers, at every width."""
import bits as B
from core import cm


def o_shift(kind, v, w, n, cin):
    """(result, carry) by the definitions of the manual; n > 0."""
    m = (1 << w) - 1
    if kind == 'LSL': return (v << n) & m, (v >> (w - n)) & 1 if n <= w else 0
    if kind == 'LSR': return v >> n, (v >> (n - 1)) & 1
    if kind == 'ASR':
        s = B.signed(v, w)
        return (s >> n) & m, (s >> (n - 1)) & 1
    if kind == 'ROR':
        k = n % w
        r = ((v >> k) | (v << (w - k))) & m
        return r, r >> (w - 1)
    return (v >> 1) | cin << (w - 1), v & 1


def o_add(x, y, c, w):
    t = x + y + c
    r = t & ((1 << w) - 1)
    s = B.signed(x, w) + B.signed(y, w) + c
    return r, int(t != r), int(B.signed(r, w) != s)


def o_expand(imm, cin):
    if imm >> 10 == 0:
        b = imm & 255
        return {0: b, 1: b | b << 16, 2: b << 8 | b << 24, 3: b * 0x01010101}[(imm >> 8) & 3], cin
    v, k = 0x80 | imm & 0x7f, imm >> 7
    r = (v >> k | v << (32 - k)) & 0xffffffff
    return r, r >> 31


def run(ctx):
    rng, bs, h = ctx.rng, cm.bitstring, cm.helpers
    T = dict((k, getattr(h.SRType, 'SRType_' + k)) for k in ('None', 'LSL', 'LSR', 'ASR', 'ROR', 'RRX'))

    def is_(x, v, w):
        return isinstance(x, bs) and x.width == w and x.unsigned == v

    def bad(call, got, want):
        ctx.violate(call.split('(')[0], {'call': call, 'got': [B.show(g) if isinstance(g, bs) else repr(g) for g in got],
                                         'want': want})

    def spoil(r, *args):
        """The caller changes its own result in place; later results must not be affected."""
        if isinstance(r, bs) and not any(r is a for a in args):
            if rng.random() < .5: r.invert()
            else: r += 1
            ctx.count('results_changed')

    def shifts(v, w, n, cin):
        x, c = bs(v, w), bs(cin, 1)
        for kind in ('LSL', 'LSR', 'ASR', 'ROR'):
            call = '%s(%#x/%d, %d)' % (kind, v, w, n)
            want = o_shift(kind, v, w, n, cin) if n else (v, cin)
            r = getattr(h, kind)(x, n)
            if not is_(r, want[0], w): bad(call, [r], want[:1])
            spoil(r, x)
            if n:
                r = getattr(h, kind + '_C')(x, n)
                if len(r) != 2 or not is_(r[0], want[0], w) or not is_(r[1], want[1], 1): bad('_C ' + call, r, want)
            r = h.Shift_C(x, T[kind], n, c)
            if len(r) != 2 or not is_(r[0], want[0], w) or not is_(r[1], want[1], 1): bad('Shift_C ' + call, r, want)
            spoil(r[0], x)
            r = h.Shift(x, T[kind], n, c)
            if not is_(r, want[0], w): bad('Shift ' + call, [r], want[:1])
        want = o_shift('RRX', v, w, 1, cin)
        call = 'RRX(%#x/%d, %d)' % (v, w, cin)
        for r in (h.RRX_C(x, c), h.Shift_C(x, T['RRX'], 1, c)):
            if len(r) != 2 or not is_(r[0], want[0], w) or not is_(r[1], want[1], 1): bad(call, r, want)
        for r in (h.RRX(x, c), h.Shift(x, T['RRX'], 1, c)):
            if not is_(r, want[0], w): bad(call, [r], want)
        r = h.Shift_C(x, T['None'], n, c)
        if not is_(r[0], v, w) or not is_(r[1], cin, 1): bad('Shift_C none', r, (v, cin))
        if not is_(x, v, w) or not is_(c, cin, 1):
            ctx.violate('argument-changed', {'call': call, 'now': [B.show(x), B.show(c)]})
        ctx.case(('shift', v, w, n, cin), {'shift of': '%#x/%d' % (v, w), 'amount': n, 'carry': cin})
        ctx.count('shifts')
        ctx.count('shift_zero' if n == 0 else 'shift_inside' if n < w else 'shift_at_width' if n == w else 'shift_beyond')

    def add(x, y, c, w):
        a, b, ci = bs(x, w), bs(y, w), bs(c, 1)
        r = h.AddWithCarry(a, b, ci)
        want = o_add(x, y, c, w)
        call = 'AddWithCarry(%#x, %#x, %d) width %d' % (x, y, c, w)
        if len(r) != 3 or not is_(r[0], want[0], w) or not is_(r[1], want[1], 1) or not is_(r[2], want[2], 1):
            bad(call, r, want)
        if not is_(a, x, w) or not is_(b, y, w) or not is_(ci, c, 1):
            ctx.violate('argument-changed', {'call': call, 'now': [B.show(z) for z in (a, b, ci)]})
        ctx.case(('add', x, y, c, w), call)
        ctx.count('additions')
        spoil(r[0], a, b)
        if want[1]: ctx.count('carries')
        if want[2]: ctx.count('overflows')

    # exhaustive at small widths
    n = 0
    for w in range(2, 5):
        for v in range(1 << w):
            for a in range(2 * w + 3):
                for c in (0, 1):
                    n += 1
                    if n % ctx.nshards == ctx.shard: shifts(v, w, a, c)
            for y in range(1 << w):
                for c in (0, 1):
                    n += 1
                    if n % ctx.nshards == ctx.shard: add(v, y, c, w)
    # every modified immediate, both carries
    for imm in range(ctx.shard, 4096, ctx.nshards):
        if imm >> 10 == 0 and (imm >> 8) & 3 and not imm & 255:
            continue                # UNPREDICTABLE in the manual
        for cin in (0, 1):
            x, c = bs(imm, 12), bs(cin, 1)
            call = 'ThumbExpandImm_C(%#x, %d)' % (imm, cin)
            ctx.case(('expand', imm, cin), call)
            r, want = h.ThumbExpandImm_C(x, c), o_expand(imm, cin)
            if len(r) != 2 or not is_(r[0], want[0], 32) or not is_(r[1], want[1], 1): bad(call, r, want)
            r = h.ThumbExpandImm(x)
            if not is_(r, want[0], 32): bad('ThumbExpandImm(%#x)' % imm, [r], want)
            spoil(r)
            r = h.ThumbExpandImm(x)
            if not is_(r, want[0], 32): bad('ThumbExpandImm(%#x) again' % imm, [r], want)
            if not is_(x, imm, 12) or not is_(c, cin, 1):
                ctx.violate('argument-changed', {'call': call})
            ctx.count('modified_immediates')
    for t in range(4):
        for i in range(ctx.shard, 32, ctx.nshards):
            x, y = bs(t, 2), bs(i, 5)
            call = 'DecodeImmShift(%d, %d)' % (t, i)
            ctx.case(('immshift', t, i), call)
            r = h.DecodeImmShift(x, y)
            want = (('LSL', 'LSR', 'ASR', 'ROR')[t] if t < 3 or i else 'RRX', i if t == 0 or i else 1 if t == 3 else 32)
            if len(r) != 2 or r[0] is not T[want[0]] or r[1] != want[1]: bad(call, r, want)
            if not is_(x, t, 2) or not is_(y, i, 5): ctx.violate('argument-changed', {'call': call})
            ctx.count('immediate_shifts')

    for _ in range(ctx.n(40000, 1200000)):
        w = 32 if rng.random() < .4 else B.width(rng, 2)
        a = rng.choice((0, 1, w - 1, w, w + 1, 2 * w, 2 * w + 1, 255, rng.randrange(w), rng.randrange(w),
                        rng.randrange(3 * w)))
        shifts(B.value(rng, w), w, a, rng.getrandbits(1))
        w = 32 if rng.random() < .4 else B.width(rng, 2)
        x, y = B.value(rng, w), B.value(rng, w)
        k = rng.random()
        if k < .2: y = ~x & ((1 << w) - 1)
        elif k < .3: y = -x & ((1 << w) - 1)
        add(x, y, rng.getrandbits(1), w)
        v, al = B.value(rng, w), 1 << rng.randrange(0, w)
        ctx.case(('align', v, w, al), 'Align(%#x/%d, %d)' % (v, w, al))
        x = bs(v, w)
        r = h.Align(x, al)
        if not is_(r, v // al * al, w) or not is_(x, v, w): bad('Align(%#x/%d, %d)' % (v, w, al), [r, x], v // al * al)
        if h.Align(v, al) != v // al * al: bad('Align(%#x, %d)' % (v, al), [h.Align(v, al)], v // al * al)
        ctx.count('aligned')
    ctx.sample({'call': 'Shift_C/ROR over width 2..4 exhaustively, all 4096 modified immediates'})
