"""C17: selection, assignment, concatenation, extension and conversion against a list-of-bits model."""
import bits as B
from core import cm


def bound(rng, w):
    k = rng.random()
    if k < .2: return None
    if k < .7: return rng.randrange(w + 1)
    if k < .9: return rng.randrange(-w, 0)
    return rng.randrange(-w - 3, w + 4)


def from_text(t):
    """The (width, value) a based text denotes."""
    w, rest = t.split("'")
    base = {'b': 2, 'o': 8, 'd': 10, 'h': 16}[rest[0]]
    return int(w), int(rest[1:], base)


def run(ctx):
    rng, bs = ctx.rng, cm.bitstring

    def check(what, got, bl):
        v, w = B.num(bl), len(bl)
        if not isinstance(got, bs) or got.width != w or got.unsigned != v:
            ctx.violate('bits', {'operation': what, 'got': B.show(got), 'want': '%#x/%d' % (v, w)})

    for _ in range(ctx.n(300000, 6000000)):
        w = B.width(rng)
        v = B.value(rng, w)
        x, m = bs(v, w), B.bits(v, w)
        src = what = '%#x/%d' % (v, w)
        op = rng.randrange(12)
        if op == 0:
            i = rng.randrange(-w, w)
            what = '(%s)[%d]' % (src, i)
            ctx.case(what, what)
            check(what, x[i], [m[i]])
            check(what, x.get_bit(i), [m[i]])
            if i >= 0 and x.get_bit_value(i) != m[i]:
                ctx.violate('bits', {'operation': what + ' get_bit_value'})
            ctx.count('index')
        elif op in (1, 2):
            s = slice(bound(rng, w), bound(rng, w), rng.choice((None, None, 1, 1, 2, 3, -1, -2, 5, -w, (w, 64, 65, 100, -63, -65, -100, 1 << 40, rng.randrange(1, w + 1), -rng.randrange(1, w + 1))[rng.randrange(10)])))
            what = '(%s)[%r:%r:%r]' % (src, s.start, s.stop, s.step)
            ctx.case(what, what)
            check(what, x[s], m[s])
            ctx.count('slice')
        elif op == 3:
            i = rng.randrange(-w, w)
            b = rng.getrandbits(1)
            val = rng.choice((b, bs(b, 1), bool(b)))
            what = '(%s)[%d] = %r' % (src, i, b)
            ctx.case(what, what)
            x[i] = val
            m[i] = b
            check(what, x, m)
            ctx.count('set_bit')
        elif op == 4:
            i = rng.randrange(w + 1)
            j = rng.randrange(i, w + 1)
            n = j - i
            if n > 0 or rng.random() < .2:
                k = rng.random()
                if n == 0: ww = 1
                elif k < .6: ww = n
                else: ww = B.width(rng)
                val = B.value(rng, ww)
                new = B.bits(val & ((1 << n) - 1), n)
                arg = rng.choice((bs(val, ww), B.text(val, ww), val, val - (1 << max(n, ww))))
                if arg.__class__ is int and arg < 0: new = B.bits(arg & ((1 << n) - 1), n)
                a = i - w if i < w and rng.random() < .2 else i
                z = None if j == w and rng.random() < .3 else (j - w if j < w and rng.random() < .2 else j)
                if i == 0 and rng.random() < .2: a = None
                what = '(%s)[%r:%r] = %r' % (src, a, z, arg if not isinstance(arg, bs) else B.show(arg))
                ctx.case(what, what)
                x[a:z] = arg
                m[i:j] = new
                check(what, x, m)
                ctx.count('set_slice')
        elif op == 5:
            # any split, rebuilt by concatenation (most significant part first)
            cuts = sorted(set(rng.randrange(1, w) for _ in range(rng.randrange(1, 5)))) if w > 1 else []
            parts = [x[a:b] for a, b in zip([0] + cuts, cuts + [w])]
            what = 'split of %s at %r' % (src, cuts)
            ctx.case(what, what)
            y = bs()
            for p in parts:
                y = p % y
            check(what, y, m)
            y = bs()
            for p in reversed(parts):
                y %= p
            check(what + ' in place', y, m)
            check(what, x, m)
            ctx.count('split')
        elif op == 6:
            k = rng.randrange(5)
            ww = B.width(rng)
            vv = B.value(rng, ww)
            if k == 0: arg, low = bs(vv, ww), B.bits(vv, ww)
            elif k == 1: arg, low = B.text(vv, ww), B.bits(vv, ww)
            elif k == 2: arg = rng.getrandbits(1); low = [arg]
            elif k == 3: arg, low = [int(c) for c in B.text(vv, ww)], B.bits(vv, ww)
            else: arg, low = x, list(m)
            what = '%s %% %s' % (src, B.show(arg) if isinstance(arg, bs) else repr(arg))
            ctx.case(what, what)
            check(what, x % arg, low + m)
            if k == 0: check(what + ' operand', arg, low)
            check(what + ' operand', x, m)
            if k == 1:
                y = bs(arg) % x
                check('reflected ' + what, y, m + low)
            x %= arg
            check(what + ' in place', x, low + m)
            ctx.count('concat')
        elif op == 7:
            what = 'reverse %s' % src
            ctx.case(what, what)
            check(what, x.reversed, m[::-1])
            check(what, x, m)
            x.reverse()
            check(what + ' in place', x, m[::-1])
            ctx.count('reverse')
        elif op == 8:
            nw = w + rng.choice((0, 1, 2, 7, 8, 32, rng.randrange(100), rng.choice((0, 64, 255, 256, 511, 512, 600, 1000, 1100))))
            what = 'extend %s to %d' % (src, nw)
            ctx.case(what, what)
            check('zero ' + what, x.zero_extend(nw), m + [0] * (nw - w))
            check('sign ' + what, x.sign_extend(nw), m + [m[-1]] * (nw - w))
            check(what, x, m)
            if w > 1:
                for f in (x.zero_extend, x.sign_extend):
                    try:
                        f(rng.randrange(1, w))
                    except ValueError:
                        ctx.count('narrowing_rejected')
                    else:
                        ctx.violate('narrowing', {'operation': what})
            ctx.count('extend')
        elif op == 9:
            what = 'count/locate %s' % src
            ctx.case(what, what)
            lo = m.index(1) if 1 in m else w
            hi = w - 1 - m[::-1].index(1) if 1 in m else -1
            got = x.bit_count(), x.lowest_set_bit(), x.highest_set_bit(), list(x)
            if got != (sum(m), lo, hi, m):
                ctx.violate('count', {'operation': what, 'got': got, 'want': (sum(m), lo, hi, m)})
            ctx.count('count')
        elif op == 10:
            what = 'convert %s' % src
            ctx.case(what, what)
            if x.binary_string != B.text(v, w):
                ctx.violate('binary_string', {'operation': what, 'got': x.binary_string})
            by = x.bytes
            if not isinstance(by, bytearray) or list(by) != [(v >> (8 * i)) & 255 for i in range((w + 7) // 8)]:
                ctx.violate('bytes', {'operation': what, 'got': repr(by)})
            check(what + ' bytes', bs(by, w), m)
            check(what + ' text', bs(x.binary_string), m)
            check(what + ' list', bs(m[::-1]), m)
            for base in (2, 8, 10, 16):
                t = x.base_string(base)
                if from_text(t) != (w, v) or t.split("'")[1][0] != {2: 'b', 8: 'o', 10: 'd', 16: 'h'}[base]:
                    ctx.violate('base_string', {'operation': what, 'base': base, 'got': t})
            if from_text(repr(x)) != (w, v) or from_text(x.base_string()) != (w, v):
                ctx.violate('repr', {'operation': what, 'got': repr(x)})
            check(what, x, m)
            ctx.count('convert')
        else:
            nw = B.width(rng)
            what = 'width %s -> %d' % (src, nw)
            ctx.case(what, what)
            x.width = nw
            check(what, x, (m + [0] * nw)[:nw])
            if x.mask != (1 << nw) - 1:
                ctx.violate('mask', {'operation': what})
            ctx.count('width')
        ctx.sample({'operation': what})
    for n in range(1 + ctx.shard, 140, ctx.nshards):
        ctx.case(('zeros', n), n)
        check('zeros', cm.bs.zeros(n), [0] * n)
        check('ones', cm.bs.ones(n), [1] * n)
    # the empty bit string is a bit string too
    for k in range(200):
        mk = rng.choice((lambda: bs(), lambda: bs(0, 0), lambda: bs(rng.getrandbits(40), 0), lambda: bs(bytearray()),
                         lambda: bs(''), lambda: bs([]), lambda: bs(5, 4)[2:2], lambda: bs(5, 4)[4:], lambda: ~bs(),
                         lambda: bs().reversed, lambda: bs().inverted, lambda: cm.bs.zeros(0), lambda: cm.bs.ones(0)))
        e = mk()
        w = B.width(rng)
        v = B.value(rng, w)
        x, m = bs(v, w), B.bits(v, w)
        what = 'empty with %#x/%d' % (v, w)
        ctx.case(('empty', k, v, w), what)
        check('empty', e, [])
        for name, r in (('reversed', e.reversed), ('[:]', e[:]), ('[::-1]', e[::-1]), ('bytes', bs(e.bytes)),
                        ('bytes', bs(e.bytes, 0)), ('text', bs(e.binary_string)), ('list', bs(list(e))),
                        ('zero extend', e.zero_extend(0)), ('join', e % bs())):
            check('empty ' + name, r, [])
        if (list(e), e.bit_count(), len(e), e.binary_string, list(e.bytes), e.lowest_set_bit(),
                e.highest_set_bit()) != ([], 0, 0, '', [], 0, -1):
            ctx.violate('empty', {'operation': what})
        check('empty zero extend', e.zero_extend(w), [0] * w)
        check(what + ' joined', x % e, m)
        check(what + ' joined', e % x, m)
        x[w:w] = e
        i = rng.randrange(w + 1)
        x[i:i] = e
        check(what + ' assigned', x, m)
        e.reverse()
        check('empty reverse', e, [])
        e %= x
        check(what + ' grown', e, m)
        ctx.count('empties')
