"""C19: comparison, hashing and truth of bit strings against the order on (value, width)."""
import operator
import bits as B
from core import cm

OPS = [('==', operator.eq), ('!=', operator.ne), ('<', operator.lt), ('<=', operator.le), ('>', operator.gt),
       ('>=', operator.ge)]
FOREIGN = [None, 1.5, 1.0, 0.0, object(), [], [1], (), (0, 1), {}, set(), b'1', bytearray(b'\x01'), int, 1j, Ellipsis]


def run(ctx):
    rng, bs = ctx.rng, cm.bitstring

    def near(v, w):
        """Another (value, width) that is often equal to or adjacent to the given one."""
        k = rng.random()
        if k < .3: return v, w
        if k < .5:
            ww = max(1, v.bit_length(), w + rng.choice((-1, 1, 3)))
            return v, ww
        if k < .7: return (v + rng.choice((-1, 1))) % (1 << w), w
        ww = B.width(rng)
        return B.value(rng, ww), ww

    for _ in range(ctx.n(70000, 2500000)):
        w = B.width(rng)
        v = B.value(rng, w)
        a = bs(v, w)
        pool = [(v, w), near(v, w), near(v, w)]
        what = ' , '.join('%#x/%d' % p for p in pool)
        ctx.case(('order', what), what)
        objs = [bs(*p) for p in pool]
        for p, x in zip(pool, objs):
            for q, y in zip(pool, objs):
                for name, f in OPS:
                    got = f(x, y)
                    if got is not f(p, q):
                        ctx.violate('order', {'pair': [p, q], 'operator': name, 'got': repr(got)})
                if p == q and hash(x) != hash(y):
                    ctx.violate('hash', {'pair': [p, q]})
        if [(int(x), x.width) for x in sorted(objs)] != sorted(pool):
            ctx.violate('sorted', {'values': pool})
        if len(set(objs)) != len(set(pool)) or bs(v, w) not in set(objs) or {a: 1}.get(bs(v, w)) != 1:
            ctx.violate('hashing', {'values': pool})
        ctx.count('triples')
        if bool(a) is not (v != 0) or (True if a else False) != (v != 0):
            ctx.violate('truth', {'value': v, 'width': w, 'got': bool(a)})

        # integers
        k = rng.random()
        if k < .25: n = v
        elif k < .4: n = v + rng.choice((-1, 1))
        elif k < .6: n = B.signed(v, w) + rng.choice((-1, 0, 0, 1))
        elif k < .7: n = rng.choice((True, False, 0, 1, -1))
        else: n = B.integer(rng)
        if n >= 0 or w > 1 or v == 0:
            left = B.signed(v, w) if n < 0 else v
            ctx.case(('int', v, w, n), {'bitstring': '%#x/%d' % (v, w), 'integer': n})
            for name, f in OPS:
                if f(a, n) is not f(left, n) or f(n, a) is not f(n, left):
                    ctx.violate('integer', {'bitstring': '%#x/%d' % (v, w), 'operator': name, 'integer': n,
                                            'got': [f(a, n), f(n, a)]})
            ctx.count('integers_negative' if n < 0 else 'integers')

        # text
        q = near(v, w)
        t = B.text(*q)
        ctx.case(('text', v, w, t), {'bitstring': '%#x/%d' % (v, w), 'text': t})
        for name, f in OPS:
            if f(a, t) is not f((v, w), q) or f(t, a) is not f(q, (v, w)):
                ctx.violate('text', {'bitstring': '%#x/%d' % (v, w), 'operator': name, 'text': t})
        ctx.count('texts')

        # foreign objects
        o = rng.choice(FOREIGN)
        ctx.case(('foreign', v, w, repr(o)[:20]), {'bitstring': '%#x/%d' % (v, w), 'object': repr(o)})
        if (a == o) is not False or (o == a) is not False or (a != o) is not True or (o != a) is not True:
            ctx.violate('foreign-equal', {'bitstring': '%#x/%d' % (v, w), 'object': repr(o)})
        if not isinstance(o, (int, bytearray, bytes)):
            for name, f in OPS[2:]:
                try:
                    got = f(a, o)
                except TypeError:
                    ctx.count('foreign_order_rejected')
                else:
                    ctx.violate('foreign-ordered', {'bitstring': '%#x/%d' % (v, w), 'object': repr(o),
                                                    'operator': name, 'got': repr(got)})
        if a.unsigned != v or a.width != w:
            ctx.violate('changed', {'bitstring': '%#x/%d' % (v, w), 'now': B.show(a)})
        ctx.count('foreign')
        ctx.sample({'order': what, 'integer': n, 'text': t})
