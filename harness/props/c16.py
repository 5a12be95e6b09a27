"""C16: bit-string arithmetic against plain integers."""
import operator
import bits as B
from core import cm

OPS = {'+': (operator.add, operator.iadd), '-': (operator.sub, operator.isub), '*': (operator.mul, operator.imul),
       '//': (operator.floordiv, operator.ifloordiv), '&': (operator.and_, operator.iand),
       '|': (operator.or_, operator.ior), '^': (operator.xor, operator.ixor),
       '<<': (operator.lshift, operator.ilshift), '>>': (operator.rshift, operator.irshift)}


def shamt(rng, w):
    return rng.choice((0, 1, w - 1, w, w + 1, 2 * w, rng.randrange(w + 1), rng.randrange(3 * w + 40)))


def operand(rng, kind):
    """(object, integer it denotes, description)"""
    if kind == 'int':
        n = B.integer(rng)
        return n, n, 'int %#x' % n
    w = B.width(rng)
    v = B.value(rng, w)
    if kind == 'str':
        return B.text(v, w), v, 'str %s' % B.text(v, w)
    return cm.bitstring(v, w), v, 'bitstring %#x/%d' % (v, w)


def run(ctx):
    rng, bs = ctx.rng, cm.bitstring
    for _ in range(ctx.n(500000, 8000000)):
        sym = rng.choice(list(OPS))
        fn, ifn = OPS[sym]
        k = rng.random()
        if sym in ('<<', '>>'):
            form = 'inplace' if k < .4 else 'normal'
            w = B.width(rng)
            v = B.value(rng, w)
            r = n = shamt(rng, w)
            left, ln, what = bs(v, w), v, '%#x/%d %s %d' % (v, w, sym, n)
        elif k < .2:
            form = 'reflected'
            kind = rng.choice(('int', 'str')) if sym in '+-//&|^' else 'int'
            left, ln, d = operand(rng, kind)
            if kind == 'int':
                w = 64 if ln >= 1 << 32 else 32
                ln &= (1 << w) - 1
            else:
                w = len(left)
            r, n, d2 = operand(rng, 'bs')
            what = '%s %s %s' % (d, sym, d2)
        else:
            form = 'inplace' if k < .5 else 'normal'
            w = B.width(rng)
            ln = B.value(rng, w)
            left = bs(ln, w)
            kind = rng.choice(('int', 'str', 'bs', 'bs'))
            r, n, d = operand(rng, kind)
            what = '%#x/%d %s %s' % (ln, w, sym, d)
        if sym == '//' and n == 0:
            continue
        ctx.case((form, what), {'operation': what, 'form': form})
        if sym in '|^' and isinstance(r, bs):
            w = max(w, r.width)         # the wider of the two operands
        want = fn(ln, n) & ((1 << w) - 1)
        if form == 'inplace':
            x = left
            got = ifn(x, r)
            if got is not x:
                ctx.violate('inplace', {'operation': what, 'problem': 'the result is another object'})
        else:
            got = fn(left, r)
        if not isinstance(got, bs) or not B.same(got, want, w):
            ctx.violate('value', {'operation': what, 'form': form, 'got': B.show(got), 'want': '%#x/%d' % (want, w)})
        elif w > 1 and got.signed != B.signed(want, w):
            ctx.violate('signed', {'operation': what, 'got': got.signed, 'want': B.signed(want, w)})
        ctx.count(form)
        ctx.sample({'operation': what, 'form': form, 'result': B.show(got)})

    for _ in range(ctx.n(60000, 2000000)):
        # construction and readings
        w = B.width(rng)
        v = B.value(rng, w)
        nw = rng.choice((None, None, w, B.width(rng)))
        k = rng.randrange(6)
        if k == 0:
            n = B.integer(rng)
            src, v, w = n, n, 64 if n >= 1 << 32 else 32
        elif k == 1: src = B.text(v, w)
        elif k == 2: src = [(v >> i) & 1 for i in range(w - 1, -1, -1)]
        elif k == 3: src = tuple((v >> i) & 1 for i in range(w - 1, -1, -1))
        elif k == 4:
            w = (w + 7) // 8 * 8
            src = bytearray((v >> (8 * i)) & 255 for i in range(w // 8))
        else: src = bs(v, w)
        what = 'bitstring(%r, %r)' % (src, nw)
        ctx.case(what, what)
        x = bs(src) if nw is None else bs(src, nw)
        w = w if nw is None else nw
        v &= (1 << w) - 1
        if not B.same(x, v, w) or (w > 1 and x.signed != B.signed(v, w)):
            ctx.violate('construct', {'call': what, 'got': B.show(x), 'signed': x.signed, 'want': '%#x/%d' % (v, w)})
        y = ~x
        z = x.inverted
        want = v ^ ((1 << w) - 1)
        if not B.same(y, want, w) or not B.same(z, want, w):
            ctx.violate('invert', {'call': '~' + what, 'got': B.show(y), 'inverted': B.show(z), 'want': hex(want)})
        if bool(x.is_zero()) != (v == 0) or bool(x.is_ones()) != (v == (1 << w) - 1) or \
                x.is_zero_bit() != ('1' if v == 0 else '0') or x.is_ones_bit() != ('1' if want == 0 else '0'):
            ctx.violate('predicates', {'call': what})
        z = bs(v, w)
        nv = B.integer(rng)
        z.value = nv
        if not B.same(z, nv & ((1 << w) - 1), w):
            ctx.violate('value-setter', {'call': what, 'assigned': nv, 'got': B.show(z)})
        ctx.count('constructed')
