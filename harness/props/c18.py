"""C18: alias-aware histories over a pool of bit strings; every live object is checked after every operation."""
import operator
import bits as B
from core import cm

BIN = {'+': (operator.add, operator.iadd), '-': (operator.sub, operator.isub), '*': (operator.mul, operator.imul),
       '//': (operator.floordiv, operator.ifloordiv), '&': (operator.and_, operator.iand),
       '|': (operator.or_, operator.ior), '^': (operator.xor, operator.ixor)}
SHIFT = {'<<': (operator.lshift, operator.ilshift), '>>': (operator.rshift, operator.irshift)}
CMP = [operator.eq, operator.ne, operator.lt, operator.le, operator.gt, operator.ge]
FOREIGN = [('None', lambda: None), ('float', lambda: 1.5), ('object', object), ('dict', dict), ('set', set)]
OPNAMES = ['read', 'compare', 'tilde', 'binary', 'ibinary', 'shift', 'ishift', 'concat', 'iconcat', 'slice', 'extend',
           'invert', 'reverse', 'set', 'value', 'width', 'setbit', 'setslice', 'alias', 'copy', 'foreign', 'reflected', 'refused']


class Cell(object):
    """The model of one object."""
    def __init__(self, obj, v, w):
        self.obj, self.v, self.w = obj, v, w

    def put(self, v, w=None):
        if w is not None: self.w = w
        self.v = v & ((1 << self.w) - 1)


def run(ctx):
    rng, bs = ctx.rng, cm.bitstring
    for _ in range(ctx.n(25000, 400000)):
        cells, slots, log = [], [], []

        def fresh(obj, v, w, what, use=True):
            """A result that must be a new object."""
            for c in cells:
                if c.obj is obj:
                    ctx.violate('not-independent', {'history': log, 'operation': what,
                                                    'problem': 'the result is one of the operands'})
            c = Cell(obj, v & ((1 << w) - 1), w)
            cells.append(c)
            if not use: pass
            elif len(slots) < 6: slots.append(c)
            else: slots[rng.randrange(6)] = c
            return c

        for _k in range(rng.randrange(2, 5)):
            w = B.width(rng, top=70)
            v = B.value(rng, w)
            slots.append(Cell(bs(v, w), v, w))
            cells.append(slots[-1])
        steps = rng.randrange(4, 30)
        for _s in range(steps):
            a, b = rng.choice(slots), rng.choice(slots)
            x, y = a.obj, b.obj
            op = rng.choice(OPNAMES)
            before = '%s a=%#x/%d b=%#x/%d%s' % (op, a.v, a.w, b.v, b.w, ' same object' if a is b else '')
            log.append(before)
            ctx.cur = log
            if op == 'read':
                for f in ('value', 'signed', 'unsigned', 'inverted', 'reversed', 'width', 'mask', 'binary_string',
                          'bytes'):
                    getattr(x, f)
                repr(x), hash(x), int(x), len(x), bool(x), list(x), x.bit_count(), x.is_zero(), x.is_ones()
                x.lowest_set_bit(), x.highest_set_bit(), x.base_string(rng.choice((2, 8, 10, 16)))
                x.is_zero_bit(), x.is_ones_bit(), '%x' % x
                if rng.random() < .5: fresh(x.reversed, B.num(B.bits(a.v, a.w)[::-1]), a.w, before)
                else: fresh(x.inverted, ~a.v, a.w, before)
            elif op == 'compare':
                f = rng.choice(CMP)
                f(x, rng.choice((y, B.integer(rng), '0101')))
            elif op == 'tilde':
                fresh(~x, ~a.v, a.w, before)
            elif op in ('binary', 'ibinary'):
                sym = rng.choice(list(BIN))
                k = rng.random()
                if k < .6: r, n, rw = y, b.v, b.w
                elif k < .85: r = n = B.integer(rng); rw = 0
                else:
                    ww = B.width(rng, top=40)
                    n = B.value(rng, ww)
                    r, rw = B.text(n, ww), 0
                if sym == '//' and n == 0:
                    continue
                w = max(a.w, rw) if sym in '|^' else a.w
                want = BIN[sym][0](a.v, n)
                log[-1] += ' %s %s' % (sym, r if r is not y else 'b')
                if op == 'binary':
                    fresh(BIN[sym][0](x, r), want, w, before)
                else:
                    if BIN[sym][1](x, r) is not x:
                        ctx.violate('inplace', {'history': log})
                    a.put(want, w)
            elif op in ('shift', 'ishift'):
                sym = rng.choice(list(SHIFT))
                n = rng.choice((0, 0, 1, a.w, rng.randrange(2 * a.w + 2)))
                want = SHIFT[sym][0](a.v, n)
                log[-1] += ' %s %d' % (sym, n)
                if op == 'shift':
                    fresh(SHIFT[sym][0](x, n), want, a.w, before)
                else:
                    if SHIFT[sym][1](x, n) is not x:
                        ctx.violate('inplace', {'history': log})
                    a.put(want)
            elif op == 'concat':
                if a.w + b.w > 400: continue
                fresh(x % y, a.v << b.w | b.v, a.w + b.w, before)
            elif op == 'iconcat':
                if a.w + b.w > 400: continue
                v, w = a.v << b.w | b.v, a.w + b.w
                if operator.imod(x, y) is not x:
                    ctx.violate('inplace', {'history': log})
                a.put(v, w)
            elif op == 'slice':
                i = rng.randrange(a.w)
                j = rng.choice((a.w, rng.randrange(i + 1, a.w + 1)))
                if rng.random() < .3: i, j = 0, a.w
                log[-1] += ' [%d:%d]' % (i, j)
                fresh(x[i:j] if j - i > 1 or rng.random() < .5 else x[i], a.v >> i, j - i, before)
            elif op == 'extend':
                nw = a.w + rng.choice((0, 1, 5, 32))
                z = rng.random() < .5
                r = x.zero_extend(nw) if z else x.sign_extend(nw)
                if r is x and nw == a.w:
                    slots[rng.randrange(len(slots))] = a
                else:
                    fresh(r, a.v if z else B.signed(a.v, a.w), nw, before)
            elif op == 'invert':
                x.invert()
                a.put(~a.v)
            elif op == 'reverse':
                x.reverse()
                a.put(B.num(B.bits(a.v, a.w)[::-1]))
            elif op == 'set':
                x.set(y)
                a.put(b.v, b.w)
            elif op == 'value':
                n = B.integer(rng)
                x.value = n
                a.put(n)
            elif op == 'width':
                nw = B.width(rng, top=70)
                if rng.random() < .1:
                    x.width = 0
                    a.put(0, 0)
                    log[-1] += ' by way of width 0'
                    if x.unsigned or len(x) or x.mask or x:
                        ctx.violate('corrupted', {'history': log, 'object': B.show(x), 'want': '0/0'})
                x.width = nw
                a.put(a.v, nw)
                if rng.random() < .3:
                    n = B.integer(rng)
                    x.value = n
                    a.put(n)
            elif op == 'setbit':
                i, n = rng.randrange(a.w), rng.getrandbits(1)
                x[i] = rng.choice((n, bs(n, 1)))
                a.put(a.v & ~(1 << i) | n << i)
            elif op == 'setslice':
                i = rng.randrange(a.w)
                j = rng.randrange(i + 1, a.w + 1)
                m = (1 << (j - i)) - 1
                x[i:j] = y
                a.put(a.v & ~(m << i) | (b.v & m) << i)
            elif op == 'alias':
                slots[rng.randrange(len(slots))] = a
            elif op == 'copy':
                c = fresh(bs(x) if rng.random() < .5 else bs(x, a.w), a.v, a.w, before)
                if rng.random() < .1:
                    e = fresh(bs(), 0, 0, before + ' and an empty one', use=False)
                    k = rng.randrange(8)
                    if k < 6:       # what is made from an empty one is as separate as what is made from any other
                        o = (lambda: ~e.obj, lambda: e.obj.inverted, lambda: e.obj.reversed, lambda: bs(e.obj),
                             lambda: x[0:0], lambda: e.obj % bs())[k]()
                        log[-1] += ' and an empty one made by way %d' % k
                        e = fresh(o, 0, 0, log[-1], use=False)
                    if rng.random() < .5: e.obj %= y
                    else: e.obj.width, e.obj.value = b.w, b.v
                    e.put(b.v, b.w)
            elif op == 'reflected':
                n = B.integer(rng)
                sym = rng.choice(list(BIN))
                w = 64 if n >= 1 << 32 else 32
                if sym == '//' and b.v == 0:
                    continue
                want = BIN[sym][0](n & ((1 << w) - 1), b.v)
                fresh(BIN[sym][0](n, y), want, max(w, b.w) if sym in '|^' else w, before)
            elif op == 'refused':
                one = bs(1, 1)
                what, f = rng.choice((
                    ('bit past the end', lambda: x.__setitem__(a.w + rng.choice((0, 0, 1, 31)), 1)),
                    ('bit past the end, bit string', lambda: x.__setitem__(a.w, one)),
                    ('bit before the start', lambda: x.__setitem__(-a.w - 1 - rng.randrange(3), 1)),
                    ('two bits into one', lambda: x.__setitem__(rng.randrange(a.w), bs(rng.randrange(4), 2))),
                    ('wide into one', lambda: x.__setitem__(rng.randrange(a.w), bs(0, 9))),
                    ('stepped assignment', lambda: x.__setitem__(slice(0, a.w, 2), y)),
                    ('reversed assignment', lambda: x.__setitem__(slice(None, None, -1), y)),
                    ('narrowing sign extension', lambda: x.sign_extend(rng.randrange(a.w))),
                    ('narrowing zero extension', lambda: x.zero_extend(rng.randrange(a.w))),
                    ('joining an integer that is no bit', lambda: x % rng.choice((2, 3, -1, 255))),
                    ('appending an integer that is no bit', lambda: operator.imod(x, rng.choice((2, 3, -1, 255)))),
                    ('no such base', lambda: x.base_string(rng.choice((0, 1, 3, 7, 64)))),
                    ('text that is no binary number', lambda: x + rng.choice(('012', 'x', '1-1'))),
                    ('appending text that is no binary number', lambda: operator.imod(x, '102')),
                    ('assigning text that is no binary number', lambda: x.__setitem__(slice(0, 1), '2')),
                    ('negative shift', lambda: (operator.ilshift, operator.irshift)[rng.getrandbits(1)](x, -1)),
                    ('dividing by zero', lambda: operator.ifloordiv(x, 0)),
                    ('a float for a bit index', lambda: x.__setitem__(0.0, 1)),
                    ('a name for a bit index', lambda: x['0']),
                ))
                log[-1] += ' ' + what
                try: r = f()
                except (TypeError, ValueError, IndexError, ZeroDivisionError): ctx.count('refusals')
                else: ctx.violate('refused-accepted', {'history': log, 'result': B.show(r) if isinstance(r, bs) else repr(r)})
                if len(one) != 1 or one.unsigned != 1:
                    ctx.violate('corrupted', {'history': log, 'object': B.show(one), 'want': "1'b1"})
            else:
                name, make = rng.choice(FOREIGN)
                k = rng.random()
                sym = rng.choice(list(BIN) + list(SHIFT) + ['%'])
                fn = dict(BIN, **SHIFT).get(sym, (operator.mod, operator.imod))[1 if k < .6 else 0]
                log[-1] += ' foreign %s %s' % (sym, name)
                try:
                    if k < .8: fn(x, make())
                    elif k < .85: fn(make(), x)
                    elif k < .9: x[rng.randrange(a.w)] = make()
                    elif k < .95: x[0:1] = make()
                    else: bs(make()) if name != 'None' else x.set(None)
                except TypeError:
                    ctx.count('foreign_rejected')
                else:
                    ctx.violate('foreign-accepted', {'history': log})
            ctx.count(op)
            for c in cells:
                o = c.obj
                if o.unsigned != c.v or o.width != c.w or o.mask != (1 << c.w) - 1 or len(o) != c.w:
                    ctx.violate('corrupted', {'history': log, 'object': B.show(o), 'want': '%#x/%d' % (c.v, c.w),
                                              'object is': 'a' if c is a else 'b' if c is b else 'another'})
            ctx.count('objects_checked', len(cells))
            if len(cells) > 9:
                live = set(id(c) for c in slots)
                cells = [c for c in cells if id(c) in live]
        ctx.case(tuple(log), log)
        ctx.sample({'history': log[:6]})
        if cm.bs.bit0.unsigned != 0 or cm.bs.bit1.unsigned != 1 or len(cm.bs.bit0) != 1 or len(cm.bs.bit1) != 1:
            ctx.violate('constants', {'history': log})
