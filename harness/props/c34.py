"""C34: copies of bit strings, instructions, memories, delegates and CPUs are faithful and independent of what they were made from."""
import copy
import bits as B
import core
from core import cm, M32, encodings, real_decode, tobytes, hexw, UNDEF, UNPRED, Machine

RAM = 0x20000000
STATE = list(range(19)) + [-4, -3, -2, -1, 33] + list(range(0x40, 0x60))


class Line(object):
    """A machine and everything that was ever done to it, or to what it was copied from."""

    def __init__(self, cpu, log):
        self.cpu, self.log = cpu, log


def start(kind):
    cpu = cm.ConfCpu() if kind else cm.CpuModel()
    cpu.delegate = cm.Mock()
    cpu.delegate.add_memory(RAM, 0x100)
    cpu.delegate.add_memory(0x1000, 0x40)
    return cpu


def act(cpu, a, objs=None):
    op = a[0]
    if op == 'exec': (real_decode(tobytes(*a[1]), a[2]) if objs is None else objs[a[3]]).execute(cpu)
    elif op == 'reg': cpu.write_register(a[1], a[2])
    elif op == 'r': cpu.r[a[1]] = cm.bitstring(a[2], 32)
    elif op == 's': cpu.s[a[1]] = a[2]
    elif op == 'flag': setattr(cpu.apsr, a[1], a[2])
    elif op == 'mem': cpu.write_memory(a[1], a[2], a[3])
    elif op == 'block': cpu.write_memory_block(a[1], bytearray(a[2]))
    elif op == 'region': cpu.delegate.add_memory(a[1], a[2])
    elif op == 'mode': cpu.mode = cm.CpuMode.Handler if a[1] else cm.CpuMode.Thread
    elif op == 'it': cpu.it = a[1]


def state(cpu, regions):
    d = cpu.delegate
    blocks = [bytes(d.read_memory_block(s, n) or b'') for s, n in regions]
    return [d.read_register(k) for k in STATE], blocks, cpu.mode, cpu.in_it_block, \
        [int(cpu.r[k]) for k in range(16)], [int(getattr(cpu.apsr, f)) for f in 'nzcv']


def machines(ctx, rng, enc):
    kind = rng.random() < .5
    words = [enc.pick(rng)[:2] for _ in range(8)]
    addrs = [core.even_pc(rng) for _ in words]
    objs = [real_decode(tobytes(*w), a) for w, a in zip(words, addrs)]
    regions, spare = [(RAM, 0x100), (0x1000, 0x40)], [(0x3000 + 0x100 * k, 0x20) for k in range(6)]
    regions += spare
    lines = [Line(start(kind), [])]
    done = []
    for k in (13, 0, 1, 2, 3, 7): # pointers into memory, so that loads and stores meet it
        a = ('reg', k, RAM + 4 * rng.randrange(64))
        act(lines[0].cpu, a)
        lines[0].log.append(a)
    for _ in range(rng.randrange(10, 50)):
        l = rng.choice(lines)
        k = rng.random()
        if k < .2 and len(lines) < 7:
            how = rng.randrange(5)
            done.append('copy %d of %d by %d' % (len(lines), lines.index(l), how))
            if how == 0: c = copy.deepcopy(l.cpu)
            elif how == 1:              # a snapshot of the delegate, used by a new CPU
                c = l.cpu.__class__()
                c.delegate = copy.deepcopy(l.cpu.delegate)
                c.mode = l.cpu.mode
                if kind: c.it = l.cpu.it
            elif how == 2:              # several at once keep what they share among themselves
                pair = copy.deepcopy({'cpu': l.cpu, 'delegate': l.cpu.delegate, 'regs': l.cpu.r, 'code': objs})
                c = pair['cpu']
                if c.delegate is not pair['delegate']: ctx.violate('shared-part', {'history': done})
                c.r[5] = 77
                pair['regs'][6] = c.r[5]
                l2 = [('r', 5, 77), ('r', 6, 77)]
            elif how == 3:              # go back to a snapshot
                snap = copy.deepcopy(l.cpu.delegate)
                mode, it = l.cpu.mode, getattr(l.cpu, 'it', False)
                for _ in range(3):
                    j = rng.randrange(len(objs))
                    if objs[j] not in (UNDEF, UNPRED): objs[j].execute(l.cpu)
                act(l.cpu, ('mem', RAM + rng.randrange(0xf0), rng.getrandbits(32), 32))
                l.cpu.delegate, l.cpu.mode = snap, mode
                ctx.count('restored')
                continue
            else:                       # a copy of a copy, whose parent goes on at once
                c = copy.deepcopy(copy.deepcopy(l.cpu))
                a = ('reg', 4, rng.getrandbits(32))
                act(l.cpu, a)
                lines.append(Line(c, list(l.log)))
                l.log.append(a)
                ctx.count('machine_copies')
                continue
            lines.append(Line(c, list(l.log) + (l2 if how == 2 else [])))
            ctx.count('machine_copies')
            continue
        if k < .25:
            j = rng.randrange(len(objs))
            if objs[j] in (UNDEF, UNPRED): continue
            o = copy.deepcopy(objs[j]) if rng.random() < .6 else copy.copy(objs[j])
            if rng.random() < .5: objs[j] = o
            else: o.address = 0x123456
            ctx.count('instructions_swapped')
            continue
        if k < .6:
            j = rng.randrange(len(words))
            if objs[j] in (UNDEF, UNPRED): continue
            a = ('exec', words[j], addrs[j], j)
        else:
            v = core.value(rng)
            a = rng.choice((('reg', rng.choice((14, 16, 17, 18, -1, -2, -3, -4)), v), ('r', rng.randrange(16), v),
                            ('s', rng.randrange(32), v), ('flag', rng.choice('nzcv'), v & 1),
                            ('mem', rng.choice((RAM, 0x1000, 0x3000)) + rng.randrange(0x104), v & 255, 8),
                            ('mem', RAM + rng.randrange(0x104), v, 32),
                            ('block', rng.choice((RAM, 0x1000)) + rng.randrange(0x40), bytes(bytearray(rng.randrange(256) for _ in range(9)))),
                            ('mode', rng.random() < .5), ('it', rng.random() < .5 and kind)))
            if rng.random() < .06:
                free = [r for r in spare if not any(x[0] == 'region' and x[1] == r[0] for x in l.log)]
                if free: a = ('region',) + rng.choice(free)
            if a[0] == 'it' and not kind: continue
        act(l.cpu, a, objs)
        l.log.append(a)
        done.append('%d: %r' % (lines.index(l), a))
        ctx.count('actions')
    what = {'history': done[-60:], 'encodings': [hexw(*w) for w in words]}
    for n, l in enumerate(lines):
        ref = start(kind)
        for a in l.log: act(ref, a)
        ctx.case(('line', n, repr(l.log)), what)
        x, y = state(l.cpu, regions), state(ref, regions)
        if x != y:
            d = [i for i, (p, q) in enumerate(zip(x, y)) if p != q]
            ctx.violate('machine', dict(what, copy=n, parts=d, got=repr([x[i] for i in d])[:300], want=repr([y[i] for i in d])[:300]))
        ctx.count('lines_compared')


def texts(f, o): return f.format(o), o.mnemonic, o.size, bytes(o.bytes), o.address, type(o)


def instructions(ctx, rng, enc):
    """A copied instruction is printed, addressed and executed as the one it was made from."""
    h1, h2, i = enc.pick(rng)
    a = core.even_pc(rng)
    o = real_decode(tobytes(h1, h2), a)
    if o in (UNDEF, UNPRED): return
    f = cm.Formatter(None)
    first = texts(f, o)
    how = rng.choice(('copy', 'deepcopy', 'list'))
    c = copy.copy(o) if how == 'copy' else copy.deepcopy(o) if how == 'deepcopy' else copy.deepcopy([o, o])[1]
    what = {'encoding': hexw(h1, h2), 'by': how, 'address': hex(a)}
    ctx.case((h1, h2, how), what)
    if texts(f, c) != first: ctx.violate('instruction', dict(what, got=texts(f, c), want=first))
    b = core.even_pc(rng)
    c.address = b
    fresh = texts(f, real_decode(tobytes(h1, h2), b))
    if texts(f, c) != fresh: ctx.violate('copy-readdressed', dict(what, got=texts(f, c), want=fresh))
    if texts(f, o) != first: ctx.violate('original-changed', dict(what, got=texts(f, o), want=first))
    seed = rng.random()
    got = []
    for x in (c, o, real_decode(tobytes(h1, h2), a)):
        r2 = core.random.Random(seed)
        m = Machine('sparse', r2)
        m.load_state(core.random_state(r2, m.mem0, i))
        x.execute(m.cpu)
        got.append((m.regs(), sorted(m.backend.mem.image().items()), list(m.rec.log)))
    if got[0] != got[2] or got[1] != got[2]: ctx.violate('copy-effect', dict(what, copy=got[0] == got[2], original=got[1] == got[2]))
    ctx.count('instruction_copies')


def strings(ctx, rng):
    bs = cm.bitstring
    w = B.width(rng)
    v = B.value(rng, w)
    x = bs(v, w)
    how = rng.choice(('copy', 'deepcopy', 'nested', 'shared'))
    if how == 'copy': y = copy.copy(x)
    elif how == 'deepcopy': y = copy.deepcopy(x)
    elif how == 'nested': y = copy.deepcopy({'a': [x, (x,)]})['a'][1][0]
    else:
        p = copy.deepcopy([x, x])
        if p[0] is not p[1]: ctx.violate('shared-string', {'value': B.show(x)})
        y = p[0]
    what = {'value': '%#x/%d' % (v, w), 'by': how}
    ctx.case((v, w, how), what)
    if y is x or type(y) is not bs or not B.same(y, v, w) or not y == x or hash(y) != hash(x) or repr(y) != repr(x) or \
            y.mask != (1 << w) - 1:
        ctx.violate('string', dict(what, got=B.show(y)))
    a, b = (x, y) if rng.random() < .5 else (y, x)
    k = rng.randrange(7)
    if k == 0: a.invert()
    elif k == 1: a += 1
    elif k == 2: a[rng.randrange(w)] = 1
    elif k == 3: a.reverse()
    elif k == 4: a.value = rng.getrandbits(w)
    elif k == 5: a.width = w + 3
    else: a %= '101'
    if not B.same(b, v, w) or b.mask != (1 << w) - 1: ctx.violate('string-shared', dict(what, operation=k, other=B.show(b)))
    ctx.count('string_copies')


def run(ctx):
    rng, enc = ctx.rng, encodings()
    for _ in range(ctx.n(24000, 600000)): strings(ctx, rng)
    for _ in range(ctx.n(6000, 120000)): instructions(ctx, rng, enc)
    for _ in range(ctx.n(2400, 60000)): machines(ctx, rng, enc)
