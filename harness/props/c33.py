"""C33: what callers drop is released: nothing the package keeps grows with the amount of work done."""
import gc, sys, threading, types, weakref
import core, console
from core import cm, M32, Machine, encodings, real_decode, random_state, tobytes, UNDEF, UNPRED

SCALAR = (type(None), bool, float, complex, type(Ellipsis))


def ours(name): return name is not None and (name == 'cmdis' or name.startswith('cmdis.'))


def retained(roots):
    """How much is reachable from the package's modules and the given objects, in elements."""
    stack = [m for n, m in list(sys.modules.items()) if ours(n)] + list(roots)
    seen, total = set(), 0
    keep = []
    while stack:
        o = stack.pop()
        if isinstance(o, SCALAR): continue
        if isinstance(o, int):
            total += o.bit_length() >> 10
            continue
        if id(o) in seen: continue
        seen.add(id(o))
        keep.append(o)
        if isinstance(o, (str, bytes, bytearray)):
            total += 1 + (len(o) >> 5)
            continue
        if isinstance(o, types.ModuleType):
            if ours(o.__name__): stack += list(vars(o).values())
            continue
        if isinstance(o, type):
            if ours(getattr(o, '__module__', None)): stack += list(vars(o).values())
            continue
        if isinstance(o, (types.FunctionType, types.MethodType)):
            f = getattr(o, '__func__', o)
            if o is not f: stack.append(o.__self__)
            stack += list(f.__defaults__ or ()) + list(vars(f).values())
            for c in f.__closure__ or ():
                try: stack.append(c.cell_contents)
                except ValueError: pass
            continue
        if isinstance(o, property):
            stack += [o.fget, o.fset]
            continue
        if isinstance(o, (staticmethod, classmethod)):
            stack.append(o.__func__)
            continue
        mine = any(ours(k.__module__) for k in type(o).__mro__)
        if isinstance(o, dict):
            total += len(o)
            for k, v in list(o.items()): stack += [k, v]
        elif isinstance(o, (list, tuple, set, frozenset)) or type(o).__module__ in ('collections', '_collections'):
            try: items = list(o)
            except TypeError: items = []
            total += len(items)
            stack += items
        if mine or type(o).__module__ in ('weakref', '_weakrefset', 'queue', 'logging', 'functools', 'collections', '_collections'):
            total += 1
            d = getattr(o, '__dict__', None)
            if d: stack += list(d.values())
            for k in type(o).__mro__:
                for n in vars(k).get('__slots__', ()) if ours(k.__module__) else ():
                    v = getattr(o, n, None)
                    if v is not None: stack.append(v)
    return total


def frames():
    """Local variables of the package's functions that are running now."""
    out, f = [], sys._getframe(1)
    while f is not None:
        if ours(f.f_globals.get('__name__')) or f.f_globals.get('__package__') == 'cmdis': out += list(f.f_locals.values())
        f = f.f_back
    return out


class Work(object):
    """Things to do n times, with the same encodings but ever new addresses, states and values."""

    def __init__(self, rng):
        self.rng = rng
        enc = encodings()
        self.words = [enc.pick(rng) for _ in range(120)]
        self.cpu = cm.CpuModel()
        self.mock = cm.Mock()
        self.mock.add_memory(0x20000000, 0x400)
        self.cpu.delegate = self.mock
        self.formatters = [cm.Formatter(self.cpu), cm.Formatter(None)]
        self.dis = cm.Disassembler()
        self.objs = [o for o in (real_decode(tobytes(a, b), 0x100) for a, b, _ in self.words) if o not in (UNDEF, UNPRED)]
        self.bad = [tobytes(a, b) for a, b in ((0xde00, None), (0xf7f0, 0xa000), (0xb400, None), (0xffff, 0xffff), (0xe92d, 0x8000))]
        self.table = cm.dmod.DecoderTree()
        self.roots = [self.cpu, self.mock, self.formatters, self.dis, self.objs, self.table]

    def word(self):
        a, b, _ = self.rng.choice(self.words)
        return tobytes(a, b)

    def scramble(self):
        r = self.rng
        for k in range(13): self.mock.write_register(k, r.getrandbits(32) if r.random() < .5 else 0x20000000 + r.randrange(0x400))
        self.mock.write_register(13, 0x20000200)
        self.mock.write_register(15, core.even_pc(r))
        self.mock.write_register(16, r.getrandbits(4) << 28 | 0x01000000)

    def decode(self, n):
        refs = []
        for _ in range(n):
            i = real_decode(self.word(), core.even_pc(self.rng))
            if i not in (UNDEF, UNPRED): refs.append(weakref.ref(i))
        return refs

    def stream(self, n):
        refs = []
        while len(refs) < n:
            data = b''.join(bytes(self.word()) for _ in range(8)) + b'\x00\xbf\x00\xbf'
            it = self.dis.disasm(data, core.even_pc(self.rng))
            for k, i in enumerate(it):
                refs.append(weakref.ref(i))
                if self.rng.random() < .1: break        # abandoned half-way
        return refs

    def format(self, n):
        refs = []
        for k in range(n):
            if k & 1:
                self.rng.choice(self.formatters).format(self.rng.choice(self.objs))
                continue
            i = real_decode(self.word(), core.even_pc(self.rng))
            f = cm.Formatter(self.cpu) if k & 2 else self.rng.choice(self.formatters)
            f.format(i)
            repr(i)
            refs += [weakref.ref(i)] + ([weakref.ref(f)] if k & 2 else [])
        return refs

    def execute(self, n):
        refs = []
        for k in range(n):
            if k % 4 == 0: self.scramble()
            i = self.rng.choice(self.objs) if k & 1 else real_decode(self.word(), core.even_pc(self.rng))
            if k & 2: self.cpu.execute([i])
            else: i.execute(self.cpu)
            if not k & 1: refs.append(weakref.ref(i))
        return refs

    def machines(self, n):
        refs = []
        for k in range(n):
            c, d = cm.CpuModel(), cm.Mock()
            d.add_memory(0x20000000, 64)
            c.delegate = d
            c.sp = 0x20000020
            for _ in range(3): self.rng.choice(self.objs).execute(c)
            f = cm.Formatter(c)
            f.format(self.rng.choice(self.objs))
            if k & 1: c.r[0], c.apsr.z = 1, 1
            refs += [weakref.ref(x) for x in (c, d, f)]
        return refs

    def delegates(self, n):
        refs = []
        for k in range(n):
            d = cm.Mock()
            self.cpu.delegate = d
            self.cpu.r[k % 13] = k
            self.cpu.read_memory(self.rng.getrandbits(30))
            repr(self.cpu)
            refs.append(weakref.ref(d))
        self.cpu.delegate = self.mock
        return refs

    def bits(self, n):
        r, bs = self.rng, cm.bitstring
        held = bs(r.getrandbits(32), 32)
        for _ in range(n):
            w = r.randrange(2, 70)
            x, y = bs(r.getrandbits(w), w), bs(r.getrandbits(w), w)
            z = (x + y) ^ ~(x - y)
            z[r.randrange(w)] = 1
            hash(x), x == y, str(x), repr(y), x.bytes, x % y, x[0:w // 2 + 1], x.sign_extend(w + 3), bs(x.binary_string)
            held += x
            cm.helpers.AddWithCarry(x, y, bs(1, 1))
            cm.helpers.Shift_C(x, cm.helpers.SRType.SRType_ROR, r.randrange(1, 40), bs(0, 1))
            cm.helpers.ThumbExpandImm(bs(r.getrandbits(12) | 0x100, 12))
            cm.utilities.bfi(r.getrandbits(32), 7, 4, r.getrandbits(4))
        self.roots[6:] = [held]
        return []

    def refused(self, n):
        r, e = self.rng, 0
        class Broken(cm.Mock):
            def read_memory(self, a, size=32): raise ValueError(a)
            def write_memory(self, a, v, size=32): raise ValueError(a)
        refs = []
        for k in range(n):
            try:
                if k % 5 == 0: cm.decoder.decode(r.choice(self.bad), r.getrandbits(31) * 2)
                elif k % 5 == 1: list(self.dis.disasm(self.word() + r.choice(self.bad) + b'\0\0\0\0', r.getrandbits(31) * 2))
                elif k % 5 == 2: self.cpu.read_register('r%d' % r.randrange(90, 10 ** 6))
                elif k % 5 == 3: cm.bitstring(r.getrandbits(40), 40) < object()
                else:
                    c = cm.CpuModel()
                    c.delegate = Broken()
                    refs += [weakref.ref(c), weakref.ref(c.delegate)]
                    r.choice(self.objs).execute(c)
            except Exception: e += 1
        return refs

    def accessors(self, n):
        r, c = self.rng, self.cpu
        for k in range(n):
            c.r[k % 16] = r.getrandbits(30) * 4
            c.s[k % 32] = r.getrandbits(32)
            c.apsr.n, c.apsr.c = r.getrandbits(1), r.getrandbits(1)
            c.read_register(r.choice(('lr', 'xpsr', 'msp', 'R3', 5)))
            a = 0x20000000 + r.randrange(0x3f0)
            c.write32(a, r.getrandbits(32))
            c.read16(a), c.read8(r.getrandbits(32)), c.read_memory_block(a, 8), c.ipsr, c.is_privileged
            c.write_memory_block(a, bytearray(8))
            c.mode = r.choice(list(cm.CpuMode))
        return []

    def tables(self, n):
        """Decoder tables of one's own come and go, and the shared one is rebuilt."""
        refs = []
        for k in range(n // 10):
            t = cm.dmod.DecoderTree()
            for j in range(4):
                t.add_decoder(cm.dmod.Decoder(lambda i, x: None, 'm%d' % j, cm.dmod.Instruction, '{0:04b} 0000 x(8)'.format(j)))
            t.build()
            try: refs.append(weakref.ref(t.decode(tobytes(self.rng.getrandbits(10)), self.rng.getrandbits(30) * 2)))
            except cm.Undefined: pass
            refs.append(weakref.ref(t))
        for _ in range(6): cm.decoder.build()
        return refs

    def threads(self, n):
        refs = []

        def go():
            i = real_decode(tobytes(0x2005), 0)
            c = cm.CpuModel()
            c.delegate = cm.Mock()
            i.execute(c)
            cm.Formatter(c).format(i)
            refs.append(weakref.ref(i))
            refs.append(weakref.ref(c))
        for _ in range(n // 8):
            t = threading.Thread(target=go)
            t.start()
            t.join()
        return refs


KINDS = ('decode', 'stream', 'format', 'execute', 'machines', 'delegates', 'bits', 'refused', 'accessors', 'tables', 'threads')


def survivors(refs):
    gc.collect()
    gc.collect()
    return sum(1 for r in refs if r() is not None)


def library(ctx, rng, n, rounds):
    w = Work(rng)
    for _ in range(rounds):
        for kind in rng.sample(KINDS, len(KINDS)):
            fn = getattr(w, kind)
            what = {'work': kind, 'times': n}
            fn(n)
            sizes = [retained(w.roots)]
            for _ in range(2):
                refs = fn(n)
                alive = survivors(refs)
                sizes.append(retained(w.roots))
                ctx.case((kind, rng.getrandbits(40)), what)
                ctx.count('rounds')
                ctx.count('dropped', len(refs))
                if alive > max(8, len(refs) // 10):
                    ctx.violate('not-released', dict(what, objects=len(refs), still_there=alive))
            step = max(n // 10, 24)
            if kind in ('tables', 'threads'): step = max(n // 80, 8)
            if all(b - a > step for a, b in zip(sizes, sizes[1:])):
                ctx.violate('grows', dict(what, retained_elements=sizes))
            ctx.count('measured', len(sizes))


def sessions(ctx, rng, lines):
    binary = console.random_binary(rng)
    sizes = []

    def cmd():
        k = rng.randrange(9)
        a = 0x20000000 + rng.randrange(0x200)
        return ['reg', 'wreg r%d %d' % (rng.randrange(13), rng.getrandbits(32)), 'read32 %#x 16' % a, 'write8 %#x %d' % (a, a & 255),
                'nosuchcommand%d' % rng.getrandbits(40), 'reset', 'help', 'wreg q%d 5' % rng.getrandbits(30), 'disasm 0x20000000 8'][k]

    def script():
        yield 'reset'
        for part in range(4):
            for _ in range(lines):
                yield cmd()
                ctx.count('commands')
            sizes.append(retained(frames()))
        yield 'quit'
    s = console.open_session(ctx, script(), binary, 0)
    what = {'commands': lines, 'retained_elements': sizes, 'died': s.died}
    ctx.case(('session', rng.getrandbits(40)), what)
    if s.died or len(sizes) != 4: ctx.violate('session', dict(what, printed=str(s.last)[-200:]))
    elif all(b - a > lines // 10 for a, b in zip(sizes[1:], sizes[2:])): ctx.violate('session-grows', what)
    ctx.count('sessions')


def run(ctx):
    rng = ctx.rng
    library(ctx, rng, 480 if not ctx.thorough else 4000, ctx.n(24, 160))
    for _ in range(ctx.n(24, 160)): sessions(ctx, rng, 100 if not ctx.thorough else 600)
