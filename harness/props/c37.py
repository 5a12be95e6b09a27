"""C37: work is proportional to what is asked: counted steps, bytes taken from the caller's data, depth, and processor time."""
import os, sys, time
import core, console
from core import cm, M32, encodings, real_decode, tobytes, UNDEF, UNPRED

SLACK = 2.2     # PyPy repeats line events in loops it has compiled, so steps of the same loop can double


class Meter(object):
    """Counts the lines run in the package, and how deep its calls go."""
    steps = depth = deepest = 0
    package = ''

    def local(self, frame, event, arg):
        if event == 'line': self.steps += 1
        elif event == 'return': self.depth -= 1
        return self.local

    def trace(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(self.package): return None
        self.steps += 1
        self.depth += 1
        if self.depth > self.deepest: self.deepest = self.depth
        return self.local

    def __enter__(self):
        self.steps = self.depth = 0
        f = sys._getframe(1)
        while f is not None:
            if f.f_code.co_filename.startswith(self.package): self.depth += 1
            f = f.f_back
        self.deepest = self.depth
        sys.settrace(self.trace)
        return self

    def __exit__(self, *a):
        sys.settrace(None)


def measured(fn):
    m = Meter()
    with m: fn()
    return m


class Data(bytearray):
    """A caller's buffer that counts what is taken out of it."""
    taken = 0

    def __getitem__(self, k):
        r = bytearray.__getitem__(self, k)
        self.taken += len(r) if isinstance(k, slice) else 1
        return r

    def __iter__(self):
        for b in bytearray.__iter__(self):
            self.taken += 1
            yield b


class Listed(list):
    taken = 0

    def __getitem__(self, k):
        r = list.__getitem__(self, k)
        self.taken += len(r) if isinstance(k, slice) else 1
        return r

    def __iter__(self):
        for b in list.__iter__(self):
            self.taken += 1
            yield b


def program(ctx, n):
    """Bytes of n decodable instructions (a repeated random pattern, so any prefix costs alike)."""
    rng, enc = ctx.rng, encodings()
    unit, k = bytearray(), 0
    while k < 8:
        a, b, _ = enc.pick(rng)
        w = tobytes(a, b)
        if real_decode(w) in (UNDEF, UNPRED): continue
        unit += w
        k += 1
    return unit * (n // 8)


# ---------------------------------------------------------------- growth with size

def sizes(ctx):
    """(name, function of n that prepares and returns (action, meters of the caller's data))."""
    rng, u, bs = ctx.rng, cm.utilities, cm.bitstring
    unit = program(ctx, 8)
    seed = rng.getrandbits(1 << 14)
    shape = rng.choice((0, 0, 1, 2, 3, 4))

    def consume(kind):
        def prep(n):
            d = kind(unit * (n // 8))
            dis = cm.Disassembler()
            return (lambda: [None for _ in dis.disasm(d, 0x8000)]), d
        return prep

    def lazily(n):
        d = Data(unit * (n // 8))
        return (lambda: [next(it) for it in [cm.Disassembler().disasm(d, 0)] for _ in range(4)]), d

    def objects(n):
        one = list(cm.Disassembler().disasm(bytes(unit), 0))
        return [one[k % len(one)] for k in range(n)]

    def machine():
        cpu = cm.CpuModel()
        cpu.delegate = cm.Mock()
        cpu.delegate.add_memory(0, 0x1000)
        for k in range(13): cpu.delegate.write_register(k, k * 8)
        cpu.delegate.write_register(13, 0x800)
        return cpu

    nops = [real_decode(tobytes(h)) for h in (0xbf00, 0x1840, 0x2005, 0x4048)]

    def execute(n):
        cpu, l = machine(), Listed(nops[k % 4] for k in range(n))
        return (lambda: cpu.execute(l)), l

    def formatting(n):
        f, l = cm.Formatter(None), objects(n)
        return (lambda: [f.format(i) for i in l]), None

    def conversion(fn, width, kind):
        def prep(n):
            d = kind([(seed >> (k % 8000)) & ((1 << width) - 1) for k in range(n // 8 * 8)])
            return (lambda: fn(d)), d
        return prep

    def block(n):
        mock = cm.Mock()
        mock.add_memory(0x100, 1 << 14)
        cpu = cm.CpuModel()
        cpu.delegate = mock
        d = Data(k & 255 for k in range(n))

        def go():
            cpu.write_memory_block(0x104, d)
            cpu.read_memory_block(0x104, n)
            mock.write_memory_block(0x104, d)
            mock.read_memory_block(0x104, n)
        return go, d

    def string(fn):
        def prep(n):
            # at both sizes the same kind of contents: scattered, lowest bit alone, highest bit alone, all, none
            s = bs(((seed & ((1 << n) - 1)) | 1, 1, 1 << (n - 1), (1 << n) - 1, 0)[shape], n)
            return (lambda: fn(s, n)), None
        return prep

    strings = {
        'text': lambda s, n: s.binary_string, 'repr': lambda s, n: repr(s), 'bytes': lambda s, n: s.bytes, 'whole': lambda s, n: s[0:n],
        'every second': lambda s, n: s[0:n:2], 'iterated': lambda s, n: list(s), 'reversed': lambda s, n: s.reversed, 'counted': lambda s, n: s.bit_count(),
        'joined': lambda s, n: s % s, 'sum': lambda s, n: s + s, 'product': lambda s, n: s * s, 'inverted': lambda s, n: ~s, 'signed': lambda s, n: s.signed,
        'shifted': lambda s, n: (s << n // 2, s >> n // 2), 'extended': lambda s, n: (s.sign_extend(2 * n), s.zero_extend(2 * n)),
        'assigned': lambda s, n: s.__setitem__(slice(0, n), s), 'compared': lambda s, n: (s == s, s < s, s >= s, s == 5), 'hashed': lambda s, n: hash(s),
        'masked': lambda s, n: (s & s, s | s, s ^ s), 'from text': lambda s, n: bs('10' * (n // 2)), 'from list': lambda s, n: bs([1, 0] * (n // 2)),
        'from bytes': lambda s, n: bs(bytearray(n // 8)), 'copied': lambda s, n: bs(s), 'lowest': lambda s, n: s.lowest_set_bit(), 'highest': lambda s, n: s.highest_set_bit(),
        'zeros': lambda s, n: (cm.bs.zeros(n), cm.bs.ones(n)), 'based': lambda s, n: [s.base_string(b) for b in (2, 8, 10, 16)],
        'added': lambda s, n: cm.helpers.AddWithCarry(s, s, cm.bs.bit1),
        'shift helpers': lambda s, n: [cm.helpers.Shift_C(s, t, n // 2, cm.bs.bit0) for t in list(cm.helpers.SRType)[1:5]],
    }
    word = bs(seed & M32, 32)
    amounts = {'far shifts': lambda n: [cm.helpers.Shift_C(word, t, n, cm.bs.bit1) for t in list(cm.helpers.SRType)[1:5]],
               'field masks': lambda n: (u.bitmask((n, 0)), u.bfx(seed, n, 0), u.bfi(seed, 5, n, 0), u.wmask(n)),
               'weights': lambda n: u.hamming_weight((1 << n) - 1)}
    out = [('stream', consume(Data)), ('stream of a list', consume(Listed)), ('execute', execute), ('format', formatting), ('block', block)]
    for name, width in (('byteListToU32leList', 8), ('byteListToU16leList', 8), ('u32leListToByteList', 32), ('u16leListToByteList', 16)):
        out.append((name, conversion(getattr(u, name), width, Listed)))
    out += [('string ' + k, string(f)) for k, f in sorted(strings.items())]
    out += [(k, lambda n, f=f: ((lambda: f(n)), None)) for k, f in sorted(amounts.items())]

    def access(size):
        mock = cm.Mock()
        mock.add_memory(0x1000, size)
        cpu = cm.CpuModel()
        cpu.delegate = mock

        def go():
            for a in (0x1000, 0x1000 + size // 2, 0x1000 + size - 4):
                cpu.write32(a, 5), cpu.read32(a), cpu.read8(a), cpu.write16(a + 2, 9), cpu.read_memory_block(a, 4), cpu.write_memory_block(a, bytearray(4))
        return go, None
    flat = [('first of a stream', lazily), ('access in a region of', access)]
    return out, flat


def growth(ctx):
    """Costs at n and at 8 n."""
    linear, flat = sizes(ctx)
    n = 8 * ctx.rng.randrange(7, 16)
    for group, factor in ((ctx.rng.sample(linear, 20), 8), (flat, 1)):
        for name, prep in group:
            cost = []
            for k in (n, n * 8):
                prep(k)[0]()
                act, data = prep(k)
                m = measured(act)
                cost.append((m.steps, m.deepest, data.taken if data is not None else 0))
            (s1, d1, t1), (s2, d2, t2) = cost
            ctx.case(('size', name, n), {'operation': name, 'n': n})
            ctx.count('sizes_compared')
            ctx.count('steps', s2)
            what = {'operation': name, 'n': n, 'steps': s1, 'steps_at_8n': s2, 'taken': t1, 'taken_at_8n': t2, 'depth': d1, 'depth_at_8n': d2}
            if s2 > s1 * factor * SLACK + 200: ctx.violate('more than proportional steps', what)
            if t2 > t1 * factor * 1.3 + 200: ctx.violate('more than proportional copying', what)
            if d2 > d1 + 12: ctx.violate('deeper with size', what)


# ---------------------------------------------------------------- growth with history

def history(ctx):
    """The same batch of operations on the same long-lived objects, its cost early and after ever more of them."""
    rng, enc = ctx.rng, encodings()
    cpu = cm.CpuModel()
    mock = cm.Mock()
    mock.add_memory(0x20000000, 0x400)
    cpu.delegate = mock
    forms = [cm.Formatter(cpu), cm.Formatter(None)]
    dis = cm.Disassembler()
    words = [tobytes(*enc.pick(rng)[:2]) for _ in range(24)]
    objs = [i for i in map(real_decode, words) if i not in (UNDEF, UNPRED)]
    data = program(ctx, 24)
    values = [core.value(rng) for _ in range(16)]
    initial = list(values)
    s = cm.bitstring(values[0], 32)
    clock = [0]

    def decode():
        for w in words: real_decode(w, 0x1000 + 2 * clock[0])

    def stream():
        for _ in dis.disasm(data, 0x4000 + 4 * clock[0]): pass

    def formats():
        for i in objs:
            for f in forms: f.format(i)

    def execute():
        for i in objs:
            for k in range(13): mock.write_register(k, values[k])
            mock.write_register(13, 0x20000200)
            mock.write_register(15, 0x100)
            mock.write_register(16, 0x01000000)
            mock.write_register(-4, 0)
            cpu.mode = cm.CpuMode.Thread
            i.execute(cpu)

    def registers():
        for k in range(13):
            cpu.r[k] = values[k]
            cpu.r[k]
            cpu.read_register('R%d' % k)
        cpu.apsr.n = 1
        cpu.sp, cpu.pc, cpu.xpsr, cpu.control

    def memory():
        for k in range(8):
            cpu.write32(0x20000000 + 4 * k, values[k])
            cpu.read16(0x20000000 + 4 * k)
        cpu.write_memory_block(0x20000020, bytearray(16))
        cpu.read_memory_block(0x20000020, 16)

    def refusals():
        for w in (0xde00, 0xb400, 0xe800):
            real_decode(tobytes(w))
        for b in (lambda: cpu.r[99], lambda: cm.bitstring('x'), lambda: s.zero_extend(3), lambda: s.__setitem__(40, 1)):
            try: b()
            except Exception: pass

    def strings():
        t = cm.bitstring(values[1], 32)
        for v in values:
            t = (t + v) ^ v
            t = t << 3 | t >> 29
        t[4:12] = t[0:8]
        t % s, t.signed, ~t, t == s, repr(t)

    def machines():
        c = cm.CpuModel()
        c.delegate = cm.Mock()
        c.delegate.add_memory(0, 64)
        cpu.delegate = None
        cpu.delegate = mock
        cm.Formatter(c).format(objs[0])
        repr(c)
    batches = {'decode': decode, 'stream': stream, 'format': formats, 'execute': execute, 'registers': registers, 'memory': memory, 'refusals': refusals,
               'strings': strings, 'machines': machines}
    names = sorted(batches)
    cost = {}
    for f in names: batches[f](), batches[f]()
    for k in range(2):
        for f in names: cost[f] = max(cost.get(f, 0), measured(batches[f]).steps)
    deep = dict((f, measured(batches[f]).deepest) for f in names)
    for r in range(3):
        for _ in range(ctx.n(60, 400)):
            clock[0] += 1
            values[:] = [core.value(rng) for _ in values]
            for f in rng.sample(names, rng.randrange(1, 5)): batches[f]()
        values[:] = initial
        for f in names:
            m = measured(batches[f])
            ctx.case(('history', f, clock[0], values[0]), {'batch': f, 'done': clock[0]})
            ctx.count('histories_compared')
            what = {'batch': f, 'batches_done': clock[0], 'steps_at_first': cost[f], 'steps_now': m.steps, 'depth_at_first': deep[f], 'depth_now': m.deepest}
            if m.steps > cost[f] * SLACK + 60: ctx.violate('costs grow with history', what)
            if m.deepest > deep[f] + 3: ctx.violate('deeper with history', what)


# ---------------------------------------------------------------- processor time

def timed(fn):
    best = None
    for _ in range(2):
        t = time.process_time()
        fn()
        t = time.process_time() - t
        best = t if best is None or t < best else best
    return best


def clocked(ctx):
    """What counting cannot see (copying inside built-in types): 16 times the size must not take far more than 16 times the time."""
    linear, _ = sizes(ctx)
    linear = [x for x in linear if not x[0].startswith('string') and x[0] not in ('field masks', 'far shifts', 'weights', 'block')]
    name, prep = linear[ctx.rng.randrange(len(linear))]
    n = 3000
    for attempt in range(3):
        small, _ = prep(n)
        small()
        t1 = timed(small)
        large, _ = prep(n * 16)
        t2 = timed(large)
        if t2 < .5 or t2 < 64 * t1: break
    else:
        ctx.violate('time grows faster than the work', {'operation': name, 'n': n, 'seconds': t1, 'seconds_at_16n': t2})
    # memory: accesses in a region 512 times as large
    def accesses(size):
        mock = cm.Mock()
        mock.add_memory(0x1000, size)
        cpu = cm.CpuModel()
        cpu.delegate = mock
        spots = [0x1000 + ctx.rng.randrange(size - 64) for _ in range(60)]

        def go():
            for a in spots:
                cpu.write32(a, 7), cpu.read32(a), cpu.write8(a, 1), cpu.read_memory_block(a, 16), cpu.write_memory_block(a, bytearray(16))
        return go
    for attempt in range(3):
        go = accesses(1 << 16)
        go()
        t1, t2 = timed(go), timed(accesses(1 << 25))
        if t2 < .1 or t2 < 16 * t1: break
    else:
        ctx.violate('access time grows with the region', {'seconds_in_64_KiB': t1, 'seconds_in_32_MiB': t2})
    ctx.case(('clock', name), {'operation': name})
    ctx.count('timed')


# ---------------------------------------------------------------- console

def sessions(ctx):
    rng = ctx.rng
    unit = program(ctx, 16)
    vectors = bytes((0, 2, 0, 0x20, 9, 0, 0, 0))
    path = os.path.join(ctx.scratch, 'c37.bin')
    with open(path, 'wb') as f: f.write(vectors + bytes(bytearray(b'\x00\xbf' * 40)) + bytes(unit))
    lines = ['reg', 'reg r3', 'wreg r4 0x1234', 'rb 0x20000000 32', 'rw 0 64', 'wb 0x20000010 1 2 3', 'reset', 'step', 'step 3', 'disasm 0x58 4', '$ cpu.r[0] + 1',
             'help', 'nonsense', 'rb', 'wreg nothing 3', 'reg;reset; step', '$ 1/0', '', 'rh [0x20000000] 4', 'log error']
    batch = ['reset'] + rng.sample(lines, 10)
    rng.shuffle(batch)
    if batch[0] == '': batch.append(batch.pop(0))

    def user():
        def cost():
            del costs[:]
            fresh[0] += 1
            for l in batch + ['$ %d' % (10000 + fresh[0]), 'rb 0x20000000 %d' % (1 + fresh[0])]:
                m = Meter()
                m.__enter__()
                yield l
                m.__exit__()
                costs.append((l, m.steps, m.deepest))
        costs, fresh = [], [0]
        for _ in range(3):
            for l in cost(): yield l
        first = list(costs)
        for r in range(3):
            for _ in range(ctx.n(3, 20)):
                for l in batch: yield l
                for _ in range(30):
                    if rng.random() < .2: yield rng.choice(('', ' ', ';', None))
                    yield rng.choice(('$ %d', 'reg r1;$ %d', 'rb 0x20000000 %d', 'wreg r5 %d', 'nothing%d', 'ww 0x20000020 %d')) % rng.randrange(1, 300)
            for l in cost(): yield l
            ctx.count('console_batches')
            for (l, s1, d1), (_, s2, d2) in zip(first, costs):
                what = {'line': l, 'steps_at_first': s1, 'steps_now': s2, 'depth_at_first': d1, 'depth_now': d2, 'lines': batch}
                if s2 > s1 * SLACK + 60: ctx.violate('commands cost more with history', what)
                if d2 > d1 + 3: ctx.violate('commands go deeper with history', what)
        # one command, or one line of commands, eight times as long
        for text in (lambda n: 'rb 0x20000000 %d' % n, lambda n: 'rw 0x20000000 %d' % n, lambda n: ';'.join(['reg r1'] * n), lambda n: 'wb 0x20000000 ' + ' '.join(['1'] * n),
                     lambda n: 'reset;step %d' % n, lambda n: 'disasm 8 %d' % n):
            pair = []
            for n in (4, 32):
                yield text(n)
                m = Meter()
                m.__enter__()
                yield text(n)
                m.__exit__()
                pair.append(m)
            ctx.count('console_sizes')
            if pair[1].steps > pair[0].steps * 8 * SLACK + 200 or pair[1].deepest > pair[0].deepest + 12:
                ctx.violate('more than proportional steps', {'line': text(32)[:100], 'steps_for_4': pair[0].steps, 'steps_for_32': pair[1].steps,
                                                             'depth_for_4': pair[0].deepest, 'depth_for_32': pair[1].deepest})
    ctx.case(('session', tuple(batch)), {'lines': batch})
    try: s = console.session(user(), [path])
    finally: sys.settrace(None)
    if s.died or s.unfinished: ctx.violate('session', {'died': s.died, 'lines': batch})
    ctx.count('sessions')


def run(ctx):
    Meter.package = os.path.dirname(os.path.abspath(cm.cmdis.__file__)) + os.sep
    for k in range(ctx.n(64, 2000)):
        growth(ctx)
        history(ctx)
        for _ in range(3): sessions(ctx)
        clocked(ctx)
