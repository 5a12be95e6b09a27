"""C21: the spec parser and the decoder tree on random specs and random tables of overlapping encodings."""
import string
from core import cm

LETTERS = string.ascii_letters


def gen_spec(rng, total=16, names=None, fixed=None, spell=True):
    """(text, elements, [(name or None, lsb, width, value or None)]): elements most significant first."""
    elems, left = [], total
    used = names if names is not None else set()
    dens = rng.choice((.2, .5, .8)) if fixed is None else fixed
    while left:
        if rng.random() < dens:
            n = min(left, rng.choice((1, 1, 2, 3, 5)))
            for _ in range(n):
                elems.append((None, 1, rng.getrandbits(1)))
            left -= n
            continue
        w = min(left, rng.choice((1, 1, 2, 3, 4, 5, 8, 11, 16 if total > 16 else 6, 33 if total > 16 else 10)))
        while True:
            name = rng.choice(LETTERS)
            for _ in range(rng.choice((0, 1, 1, 2, 4))):
                name += rng.choice(LETTERS + string.digits)
            if name not in used: break
        used.add(name)
        if rng.random() < .25:
            elems.append((name, w, rng.getrandbits(w)))
        else:
            elems.append((name, w, None))
        left -= w
    out, glue = '', ''          # glue: what the previous element needs before the next character
    for name, w, v in elems:
        if name is None:
            s = str(v)
            if glue == 'digit' or glue == 'bits': out += ' '
            out += s
            glue = ''
        else:
            if glue == 'digit': out += rng.choice((' ', '  ', '\t')) if spell else ' '
            out += name
            if v is not None:
                out += '='
                for i in range(w - 1, -1, -1): out += str((v >> i) & 1)
                glue = 'bits'
            else:
                sp = (lambda: rng.choice(('', '', '', ' ', '  '))) if spell else (lambda: '')
                if w == 1 and rng.random() < .6:
                    k = rng.random()
                    if k < .5 or not spell:
                        glue = 'digit'                       # a bare name is one bit wide
                    else:
                        out += sp() + '(' + sp() + ')'
                        glue = ''
                else:
                    out += sp() + '(' + sp() + (rng.choice(('', '', '0')) if spell else '') + str(w) + sp() + ')'
                    glue = ''
        if spell and rng.random() < .4:
            # whitespace ends a name or a fixed value as well
            out += rng.choice((' ', ' ', '  ', '\t', '\n'))
            glue = ''
    return out, elems


def layout(elems, offset=0):
    """(mask, match, {name: (lsb, width)})"""
    mask = match = 0
    fields, pos = {}, offset
    for name, w, v in reversed(elems):
        if v is not None:
            mask |= ((1 << w) - 1) << pos
            match |= v << pos
        if name is not None: fields[name] = (pos, w)
        pos += w
    return mask, match, fields


class Table(object):
    def __init__(self, ctx, rng):
        self.ctx, self.rng = ctx, rng
        self.tree = cm.dmod.DecoderTree()
        self.entries = []
        self.calls = []
        self.klass = type('TestInstruction', (cm.dmod.Instruction,), {})
        self.probe = self.klass('x', 0, False)

    def add(self):
        rng = self.rng
        wide = rng.random() < .5
        names = set()
        like = rng.choice(self.entries) if self.entries and rng.random() < .7 else None
        for _ in range(20):
            if like is not None and like['wide'] == wide:
                # a variation of an existing encoding: overlaps are the rule
                def vary(elems):
                    out = []
                    for name, w, v in elems:
                        k = rng.random()
                        if name is None and k < .12:
                            v = v ^ 1
                        if name is None and k > .85:
                            nm = 'q%d' % len(names)
                            names.add(nm)
                            out.append((nm, 1, None))
                            continue
                        if name is not None and v is None and k < .3:
                            out += [(None, 1, rng.getrandbits(1)) for _ in range(w)]
                            continue
                        if name is not None: names.add(name)
                        out.append((name, w, v))
                    return out
                parts = [spell(rng, vary(e)) for e in like['elems']]
            else:
                first = gen_spec(rng, 16 - 5 if wide else 16, names)
                if wide:
                    pre = rng.choice(('11101', '11110', '11111'))
                    first = spell(rng, [(None, 1, int(c)) for c in pre] + first[1])
                parts = [first] + ([gen_spec(rng, 16, names)] if wide else [])
            mask, match, fields = layout(parts[0][1])
            if wide:
                m2, v2, f2 = layout(parts[1][1], 16)
                mask |= m2
                match |= v2
                if set(fields) & set(f2): continue
                fields.update(f2)
            break
        else:
            return
        k = len(self.entries)
        e = {'k': k, 'wide': wide, 'elems': [p[1] for p in parts], 'specs': [p[0] for p in parts], 'mask': mask,
             'match': match, 'fields': fields, 'weight': bin(mask).count('1'),
             'kw': dict(('kw%d' % j, (k, j)) for j in range(rng.randrange(3))),
             'decline': rng.choice((None, None, None, 'all', 'odd', 'third')), 'unpred': rng.random() < .1}

        # an attribute of the encoding may share its name with one of its fields: the two are independent
        taken = set(dir(self.klass)) | {'operands', 'seen', 'mnemonic', 'size', 'address', 'bytes', 'handler', 'klass',
                                        'spec', 'spec2', 'self'}
        for j, name in enumerate(sorted(fields)):
            if rng.random() < .15 and name not in taken and name.isidentifier() and not hasattr(self.probe, name):
                e['kw'][name] = (k, 'own', j)

        def handler(*args, **attrs):
            i, = args
            self.calls.append((k, i, attrs))
            i.operands = [k]
            i.seen = dict((n, (v.unsigned, v.width)) for n, v in attrs.items())
            key = sum(v.unsigned for v in attrs.values())
            if self.declines(e, key): raise cm.dmod.DecodeError()
            if self.refuses(e, key): raise cm.Unpredictable()
        d = cm.dmod.Decoder(handler, 'op%d' % k, self.klass, *e['specs'], **e['kw'])
        if d.is32bit != wide:
            self.ctx.violate('is32bit', {'specs': e['specs']})
        self.tree.add_decoder(d)
        self.entries.append(e)

    def declines(self, e, key):
        return e['decline'] == 'all' or (e['decline'] == 'odd' and key & 1) or (e['decline'] == 'third' and key % 3 == 0)

    def refuses(self, e, key):
        return e['unpred'] and key % 4 == 1

    def values(self, e, word):
        return dict((n, ((word >> p) & ((1 << w) - 1), w)) for n, (p, w) in e['fields'].items())


def spell(rng, elems):
    """Another spelling of given elements."""
    out, need = '', False
    for name, w, v in elems:
        if need: out += ' '
        need = False
        if name is None: out += str(v)
        elif v is not None:
            out += name + '=' + ''.join(str((v >> i) & 1) for i in range(w - 1, -1, -1))
            need = True
        elif w == 1 and rng.random() < .5:
            out += name
            need = True
        else: out += '%s(%d)' % (name, w)
    return out, elems


def run(ctx):
    rng, bs = ctx.rng, cm.bitstring
    parse = cm.dmod.parse_spec
    for _ in range(ctx.n(60000, 1500000)):
        text, elems = gen_spec(rng, rng.choice((16, 16, rng.randrange(1, 25), rng.randrange(1, 121))))
        ctx.case(('spec', text), {'spec': text})
        got = parse(text)
        norm = []
        for g in got:
            if isinstance(g, tuple):
                norm.append((g[0], g[1].width, g[1].unsigned) if isinstance(g[1], bs) else (g[0], g[1], None))
            else:
                norm.append((None, 1, g))
        if norm != [tuple(e) for e in elems]:
            ctx.violate('parse_spec', {'spec': text, 'got': norm, 'want': elems})
        ctx.count('specs')
        ctx.sample({'spec': text, 'elements': elems})
        if rng.random() < .15:
            # a character that no field can start with, at the start or right after a fixed bit
            at = rng.choice([0] + [k + 1 for k, c in enumerate(text) if c in '01' and '(' not in text[:k + 1]
                                   and '=' not in text[:k + 1] and (k == 0 or not text[k - 1].isalnum() or
                                                                    text[:k].strip('01 \t\n') == '')])
            bad = text[:at] + rng.choice('-#?*_,.{}[]@+|/23456789=)') + text[at:]
            ctx.case(('malformed', bad), {'spec': bad})
            try: got = parse(bad)
            except ValueError: ctx.count('malformed_specs')
            else: ctx.violate('malformed-accepted', {'spec': bad, 'got': repr(got)})
        width = sum(e[1] for e in elems)
        if width != 16 and rng.random() < .3:
            for specs in ((text,), ('11101 xx(11)', text)):
                if 'xx(' in text: continue
                try: cm.dmod.Decoder(lambda i, **kw: None, 'bad', cm.dmod.Instruction, *specs)
                except (AssertionError, ValueError): ctx.count('wrong_width_specs')
                else: ctx.violate('wrong-width-accepted', {'specs': specs, 'width': width})

    for n in range(ctx.n(3000, 60000)):
        t = Table(ctx, rng)
        for _ in range(rng.choice((1, 2, 3, 5, 8, 14))): t.add()
        if not t.entries:
            continue
        t.tree.build()
        ctx.count('tables')
        for rnd in range(2):
            for _ in range(60):
                k = rng.random()
                if k < .75:
                    e = rng.choice(t.entries)
                    word = e['match'] | rng.getrandbits(32) & ~e['mask']
                    if rng.random() < .2: word ^= 1 << rng.randrange(32)
                    if not e['wide']: word &= 0xffff
                    wide = e['wide']
                else:
                    word, wide = rng.getrandbits(32), True
                if (word & 0xf800) not in (0xe800, 0xf000, 0xf800):
                    word &= 0xffff
                    wide = False
                else:
                    wide = True
                data = bytearray((word >> (8 * i)) & 255 for i in range(4 if wide else 2))
                if rng.random() < .5: data += bytearray(rng.getrandbits(8) for _ in range(rng.randrange(4)))
                if rng.random() < .3: data = bytes(data) if rng.random() < .5 else list(data)
                addr = rng.choice((0, 0x1000, rng.getrandbits(32)))
                cand = [e for e in t.entries if e['wide'] == wide and word & e['mask'] == e['match']]
                live = [e for e in cand if not t.declines(e, sum(v for v, w in t.values(e, word).values()))]
                best = max([e['weight'] for e in live]) if live else None
                allowed = [e for e in live if e['weight'] == best]
                what = {'word': hex(word), 'table': [(e['specs'], e['decline']) for e in t.entries],
                        'candidates': [e['k'] for e in cand], 'allowed': [e['k'] for e in allowed]}
                ctx.case(('decode', n, word), what)
                del t.calls[:]
                try:
                    i = t.tree.decode(data, addr)
                    res = 'ok'
                except cm.Undefined: res = 'undefined'
                except cm.Unpredictable: res = 'unpredictable'
                except cm.dmod.DecodeError: res = 'declined'
                for k, obj, attrs in t.calls:
                    e = t.entries[k]
                    if e not in cand or dict((a, (v.unsigned, v.width)) for a, v in attrs.items()) != t.values(e, word):
                        ctx.violate('fields', dict(what, handler=k, passed=dict((a, str(v)) for a, v in attrs.items()),
                                                   want=t.values(e, word)))
                    if any(getattr(obj, a, None) != v for a, v in e['kw'].items()):
                        ctx.violate('keywords', dict(what, handler=k))
                if not allowed:
                    ctx.count('undefined' if not cand else 'all_declined')
                    if res != 'undefined': ctx.violate('selection', dict(what, got=res))
                    continue
                if len(cand) > 1: ctx.count('overlapping')
                if any(e['weight'] > best for e in cand): ctx.count('fell_back')
                ctx.count('selected')
                if res == 'unpredictable':
                    k = t.calls[-1][0] if t.calls else None
                    if k is None or t.entries[k] not in allowed or not t.refuses(
                            t.entries[k], sum(v for v, w in t.values(t.entries[k], word).values())):
                        ctx.violate('selection', dict(what, got=res))
                    ctx.count('refused')
                elif res != 'ok':
                    ctx.violate('selection', dict(what, got=res))
                else:
                    k = i.operands[0] if i.operands else None
                    if k is None or t.entries[k] not in allowed:
                        ctx.violate('selection', dict(what, got=k))
                    elif t.refuses(t.entries[k], sum(v for v, w in t.values(t.entries[k], word).values())):
                        ctx.violate('selection', dict(what, got='refused encoding accepted'))
                    elif i.__class__ is not t.klass or i.mnemonic != 'op%d' % k or i.size != (4 if wide else 2) or \
                            i.address != addr or bytes(i.bytes) != bytes(bytearray(data[:i.size])) or \
                            i.seen != t.values(t.entries[k], word):
                        ctx.violate('instruction', dict(what, got=repr(i)))
            # adding encodings later and rebuilding
            for _ in range(rng.randrange(1, 4)): t.add()
            t.tree.build()
            ctx.count('rebuilds')
