"""C32: faults raised by delegates, operands, handlers and iterables reach the caller and leave nothing half-done."""
import core
from core import cm, Machine, random_state, hexw, tobytes, UNDEF, UNPRED, M32
import random

NEVER = 1 << 30
STATE = list(range(19)) + [-4, -3, -2, -1] + core.OTHERS
SINGLE = ('ldr', 'str', 'ldrlit')


class Fault(Exception):
    pass


class BusError(LookupError):
    def __init__(self, address, status=3):
        super(BusError, self).__init__('bus fault at %#x' % address)
        self.address = address


def an_exception(rng):
    k = rng.randrange(11)
    if k < 2: return Fault('x', rng.getrandbits(16))
    if k == 2: return BusError(rng.getrandbits(32))
    return rng.choice((ValueError, KeyError, IndexError, TypeError, MemoryError, OSError, KeyboardInterrupt, RuntimeError,
                       ZeroDivisionError, AssertionError, NotImplementedError))('injected %d' % rng.randrange(99))


class Faulty(object):
    """A delegate whose k-th access raises, before or after it was performed."""

    def __init__(self, inner):
        self.inner = inner
        self.arm(NEVER)

    def arm(self, at, exc=None, after=False):
        self.at, self.exc, self.after = at, exc, after
        self.calls = []

    def _do(self, what, fn, *a):
        n = len(self.calls)
        self.calls.append((what,) + a)
        if n != self.at: return fn(*a)
        if self.after: fn(*a)
        raise self.exc

    def read_register(self, reg): return self._do('rr', self.inner.read_register, reg)
    def write_register(self, reg, value): return self._do('wr', self.inner.write_register, reg, value)
    def read_memory(self, addr, size=32): return self._do('rm', self.inner.read_memory, addr, size)
    def write_memory(self, addr, value, size=32): return self._do('wm', self.inner.write_memory, addr, value, size)
    def read_memory_block(self, addr, length): return self._do('rb', self.inner.read_memory_block, addr, length)
    def write_memory_block(self, addr, data): return self._do('wb', self.inner.write_memory_block, addr, data)


class Rig(object):
    """A machine behind a faulty delegate."""

    def __init__(self, kind, seed, salt):
        self.m = Machine(kind, random.Random(seed), salt)
        self.f = Faulty(self.m.backend)
        self.cpu = self.m.cpu
        self.cpu.delegate = self.f
        self.kind = kind

    def fresh(self):
        """Memory as it was at first."""
        m = self.m
        if self.kind == 'mock':
            for s, b in m.mem0.regs:
                if m.backend.read_memory_block(s, len(b)) != b: m.backend.write_memory_block(s, bytearray(b))
        else: m.backend.mem = m.mem0.copy()

    def load(self, s):
        self.f.arm(NEVER)
        for k, v in self.m.others.items(): self.m.backend.write_register(k, v)
        self.m.load_state(s)

    def regs(self):
        rd = self.m.backend.read_register
        return dict((k, rd(k)) for k in STATE)

    def mem(self):
        """Bytes that differ from the start."""
        if self.kind != 'mock': return self.m.backend.mem.image()
        return dict((a, v) for a, v, _ in self.m.mem_diffs(self.m.mem0))


def attempt(fn, *a):
    try:
        fn(*a)
    except BaseException as e:
        return e
    return None


def call(e): return None if e is None else '%s: %s' % (type(e).__name__, e)


def showcalls(calls): return [[c[0]] + [hex(x) if isinstance(x, int) else repr(x) for x in c[1:]] for c in calls[-6:]]


class Checker(object):
    def __init__(self, ctx, rng):
        self.ctx, self.rng, self.enc = ctx, rng, core.encodings()
        salt = rng.getrandbits(32)
        self.rigs = [Rig('mock', rng.random(), None), Rig('sparse', rng.random(), salt)]
        self.memops = self.enc.picker(lambda i: i.op in ('ldr', 'str', 'ldrlit', 'push', 'pop', 'stm', 'ldm'), rng)

    def one(self):
        """(object, model instruction, words): an instruction that decodes."""
        while True:
            h1, h2, i = self.memops() if self.rng.random() < .6 else self.enc.pick(self.rng)
            o = core.real_decode(tobytes(h1, h2), 0x1000)
            if o not in (UNDEF, UNPRED): return o, i, hexw(h1, h2)

    @staticmethod
    def stepping(i, old):
        if i is None or i.op not in ('push', 'pop', 'stm', 'ldm'): return ()
        n = i.n if i.op in ('stm', 'ldm') else 13
        return (n,) if n != 13 else (13, 18 if old[-4] & 2 else 17)

    def between(self, what, kind, old, new, m_old, m_new, rig, i):
        """Every register, flag and byte is as before or as after."""
        ctx = self.ctx
        got, mem = rig.regs(), rig.mem()
        bad = []
        for k in STATE:
            a, b, g = old[k], new[k], got[k]
            if k == 15: ok = (g ^ a) & ~1 == 0 or (g ^ b) & ~1 == 0 or (g - a) & M32 in (2, 4)
            elif k == 16: ok = all((g >> n & 1) in (a >> n & 1, b >> n & 1) for n in range(32))
            else: ok = g in (a, b)
            if not ok and k in self.stepping(i, old):
                # the base of a multiple transfer may be part way
                ok = (g - a) & 3 == 0 and min(a, b) <= g <= max(a, b) or (b - a) & M32 > 64 and (a - b) & M32 > 64
            if not ok: bad.append(('register', k, hex(g), hex(a), hex(b)))
        for a in set(mem) | set(m_old):
            v = rig.m.mem0.load(a)
            if mem.get(a, v) not in (m_old.get(a, v), m_new.get(a, v)): bad.append(('byte', hex(a), mem.get(a, v)))
        if bad: ctx.violate(kind, dict(what, neither_before_nor_after=bad[:6]))
        return got, mem

    def single(self):
        """One instruction, faulted at several of its accesses and then run again."""
        ctx, rng = self.ctx, self.rng
        rig = rng.choice(self.rigs)
        o, i, word = self.one()
        rig.fresh()
        s = random_state(rng, rig.m.mem0, i)
        rig.load(s)
        old = rig.regs()
        whole = attempt(o.execute, rig.cpu)
        if whole is not None:
            ctx.violate('unprovoked', dict(core.describe(0, None, s), encoding=word, raised=call(whole)))
            return
        n, calls = len(rig.f.calls), rig.f.calls
        new, m_new = rig.regs(), rig.mem()
        memat = [k for k, c in enumerate(calls) if c[0] in ('rm', 'wm')]
        points = set([rng.randrange(n)] if n else [])
        if memat: points |= set([memat[0], memat[-1], rng.choice(memat)])
        if rng.random() < .2: points = set(range(n))
        for k in sorted(points):
            exc, after = an_exception(rng), rng.random() < .3
            what = dict(encoding=word, access=showcalls(calls[k:k + 1]), access_number=k, of=n, fault=call(exc),
                        after_performing=after, state=core.describe(0, None, s))
            ctx.case((word, k, after, s.r[0], type(exc).__name__), what)
            rig.fresh()
            rig.load(s)
            rig.f.arm(k, exc, after)
            via = rng.randrange(3)
            if via == 0: e = attempt(rig.cpu.execute, [o])
            elif via == 1: e = attempt(rig.cpu.execute, iter((o,)))
            else: e = attempt(o.execute, rig.cpu)
            if e is not exc:
                ctx.violate('lost', dict(what, raised=call(e)))
                continue
            if len(rig.f.calls) != k + 1:
                ctx.violate('went-on', dict(what, later=showcalls(rig.f.calls[k + 1:])))
            got, mem = self.between(what, 'torn', old, new, {}, m_new, rig, i)
            if i.op in SINGLE and k in memat:
                ch = [r for r in STATE if r != 15 and got[r] != old[r]]
                if ch or mem and not (after and mem == m_new):
                    ctx.violate('aborted-access', dict(what, changed=ch, bytes=[hex(a) for a in sorted(mem)][:8]))
                ctx.count('aborted_single_accesses')
            c = rig.cpu
            if c.mode != (cm.CpuMode.Handler if s.handler else cm.CpuMode.Thread) or c.delegate is not rig.f:
                ctx.violate('frame', what)
            ctx.count('faults')
            ctx.count('fault_on_' + calls[k][0])
            if after: ctx.count('after_the_access')
            if mem or any(got[r] != old[r] for r in STATE if r != 15): ctx.count('stopped_midway')
            if rng.random() < .25:
                # the object again in another state, against one decoded afresh
                t = random_state(rng, rig.m.mem0, i)
                seen = []
                for x in (o, core.real_decode(tobytes(*[int(h, 16) for h in word.split()]), 0x1000)):
                    rig.fresh()
                    rig.load(t)
                    seen.append((call(attempt(x.execute, rig.cpu)), rig.regs(), rig.mem()))
                if seen[0] != seen[1]:
                    d = [(r, hex(v), hex(seen[1][1][r])) for r, v in seen[0][1].items() if v != seen[1][1][r]]
                    ctx.violate('elsewhere', dict(what, later=core.describe(0, None, t), registers_got_want=d))
                rig.fresh()
                for a, v in mem.items(): rig.m.backend.write_memory(a, v, 8)
                ctx.count('elsewhere')
            # again, from the same registers; memory stays as the fault left it
            if rng.random() < .2:
                other = rng.choice(self.rigs)
                if other is not rig: attempt(o.execute, other.cpu)
            rig.load(s)
            e = attempt(o.execute, rig.cpu)
            if e is not None or rig.regs() != new or rig.mem() != m_new:
                d = [(r, hex(v), hex(new[r])) for r, v in rig.regs().items() if v != new[r]]
                ctx.violate('again', dict(what, raised=call(e), registers_got_want=d, same_bytes=rig.mem() == m_new))
            ctx.count('retries')

    def program(self):
        """A sequence given to CpuModel.execute, with a fault somewhere in it."""
        ctx, rng = self.ctx, self.rng
        rig = rng.choice(self.rigs)
        prog = [self.one() for _ in range(rng.randrange(1, 9))]
        if rng.random() < .3: prog += [rng.choice(prog) for _ in range(rng.randrange(1, 4))]
        rig.fresh()
        s = random_state(rng, rig.m.mem0, prog[0][1])
        rig.load(s)
        snaps, marks = [(rig.regs(), rig.mem())], [0]
        for o, i, w in prog:
            attempt(o.execute, rig.cpu)
            snaps.append((rig.regs(), rig.mem()))
            marks.append(len(rig.f.calls))
        n = marks[-1]
        for _ in range(2):
            exc, after = an_exception(rng), rng.random() < .3
            k = rng.randrange(n + n // 4 + 1)
            how = rng.choice(('list', 'tuple', 'generator', 'iterator', 'failing'))
            stop = rng.randrange(len(prog) + 1) if how == 'failing' else None
            if how == 'failing': k = NEVER
            at = max(j for j in range(len(marks)) if marks[j] <= k) if k < n else len(prog)   # index of the faulting one
            what = dict(program=[w for _, _, w in prog], given_as=how, access_number=k, fault=call(exc), at_instruction=at,
                        iterable_fails_at=stop, after_performing=after, state=core.describe(0, None, s))
            ctx.case(('program', tuple(w for _, _, w in prog), k, how, stop, s.r[0]), what)
            rig.fresh()
            rig.load(s)
            rig.f.arm(k, exc, after)
            asked = []

            def feed():
                for j, p in enumerate(prog):
                    asked.append(j)
                    if j == stop: raise exc
                    yield p[0]
                if stop == len(prog): raise exc
            objs = [p[0] for p in prog]
            g = objs if how == 'list' else tuple(objs) if how == 'tuple' else iter(objs) if how == 'iterator' else feed()
            e = attempt(rig.cpu.execute, g)
            if stop is not None:
                if e is not exc: ctx.violate('iterable-lost', dict(what, raised=call(e)))
                if (rig.regs(), rig.mem()) != snaps[stop]: ctx.violate('iterable', what)
                ctx.count('failing_iterables')
                continue
            if at == len(prog):
                if e is not None or (rig.regs(), rig.mem()) != snaps[-1]: ctx.violate('complete', dict(what, raised=call(e)))
                ctx.count('programs_unfaulted')
                continue
            if e is not exc:
                ctx.violate('lost', dict(what, raised=call(e)))
                continue
            if len(rig.f.calls) != k + 1: ctx.violate('went-on', dict(what, later=showcalls(rig.f.calls[k + 1:])))
            if how == 'generator' and asked != list(range(at + 1)): ctx.violate('fetched-ahead', dict(what, asked=asked))
            rest = None
            if how == 'iterator':
                rest = list(g)
                if [id(x) for x in rest] != [id(x) for x in objs[at + 1:]]: ctx.violate('fetched-ahead', what)
            self.between(what, 'program-torn', snaps[at][0], snaps[at + 1][0], snaps[at][1], snaps[at + 1][1], rig, prog[at][1])
            ctx.count('programs')
            if at: ctx.count('after_complete_instructions')
            # the caller repairs the faulting instruction's registers and carries on
            rig.f.arm(NEVER)
            for r in (-4, 17, 18) + tuple(r for r in STATE if r not in (-4, 13, 17, 18)):
                rig.m.backend.write_register(r, snaps[at][0][r])
            e = attempt(rig.cpu.execute, objs[at:] if rest is None else [objs[at]] + rest)
            if e is not None or (rig.regs(), rig.mem()) != snaps[-1]: ctx.violate('resumed', dict(what, raised=call(e)))
            ctx.count('resumed')

    def accessor(self):
        """One use of the CPU's own interface, faulted."""
        ctx, rng = self.ctx, self.rng
        rig = rng.choice(self.rigs)
        rig.fresh()
        s = random_state(rng, rig.m.mem0)
        c, v = rig.cpu, rng.getrandbits(32)
        k = rng.randrange(16)
        name = rng.choice(('pc', 'lr', 'sp', 'msp', 'psp', 'xpsr'))
        a = core.some_address(rng, rig.m.mem0) & ~3
        fl, sz = rng.choice('nzcv'), rng.choice((8, 16, 32))

        def setitem(x, j, val): x[j] = val
        acts = [('r[%d]' % k, lambda: c.r[k]), ('r[%d]=' % k, lambda: setitem(c.r, k, v)), (name, lambda: getattr(c, name)),
                (name + '=', lambda: setattr(c, name, v)), ('apsr.' + fl, lambda: getattr(c.apsr, fl)),
                ('apsr.%s=' % fl, lambda: setattr(c.apsr, fl, v & 1)), ('ipsr', lambda: c.ipsr), ('s[%d]' % k, lambda: c.s[k]),
                ('s[%d]=' % k, lambda: setitem(c.s, k, v)), ('control', lambda: c.control),
                ('read%d' % sz, lambda: getattr(c, 'read%d' % sz)(a)),
                ('write%d' % sz, lambda: getattr(c, 'write%d' % sz)(a, v & ((1 << sz) - 1))),
                ('read_memory_block', lambda: c.read_memory_block(a, 8)), ('repr', lambda: repr(c)),
                ('write_memory_block', lambda: c.write_memory_block(a, bytearray(b'abcdefgh'))),
                ('pc_for_instr', lambda: c.pc_for_instr), ('read_register', lambda: c.read_register(name)),
                ('write_register', lambda: c.write_register(name, v))]
        if rig.kind == 'sparse': acts = [x for x in acts if 'block' not in x[0]]
        label, act = rng.choice(acts)
        rig.load(s)
        old = rig.regs()
        if attempt(act) is not None:
            ctx.violate('unprovoked', {'use': label})
            return
        n, new, m_new = len(rig.f.calls), rig.regs(), rig.mem()
        if not n: return
        exc, after, at = an_exception(rng), rng.random() < .3, rng.randrange(n)
        what = {'use': label, 'fault': call(exc), 'access_number': at, 'of': n, 'after_performing': after,
                'state': core.describe(0, None, s)}
        ctx.case((label, at, after, s.r[0]), what)
        rig.fresh()
        rig.load(s)
        rig.f.arm(at, exc, after)
        e = attempt(act)
        if e is not exc: ctx.violate('lost', dict(what, raised=call(e)))
        if len(rig.f.calls) != at + 1: ctx.violate('went-on', dict(what, later=showcalls(rig.f.calls[at + 1:])))
        if not after and (rig.regs() != old and n == 1 or rig.mem()): ctx.violate('aborted-access', what)
        self.between(what, 'torn', old, new, {}, m_new, rig, None)
        rig.f.arm(NEVER)
        rig.load(s)
        if attempt(act) is not None or rig.regs() != new or rig.mem() != m_new: ctx.violate('again', what)
        ctx.count('accessors')

    def lines(self):
        """Formatters, some of whose operands fail; later lines are as if they had not."""
        ctx, rng = self.ctx, self.rng
        cpu = cm.CpuModel()
        fm = cm.Formatter(rng.choice((cpu, None)))
        state = {}

        class Bad(cm.formatter.Operand):
            def format(self, formatter):
                if state['exc'] is None: return 'ok'
                for c in state['comments']: formatter.add_comment(c)
                raise state['exc']
        good = []
        for _ in range(4):
            o, i, w = self.one()
            good.append((o, cm.Formatter(None).format(o), w))
        for _ in range(rng.randrange(2, 9)):
            if rng.random() < .5:
                o, text, w = rng.choice(good)
                got = fm.format(o)
                ctx.case(('line', w), w)
                if got != text: ctx.violate('line-after-fault', {'word': w, 'got': got, 'want': text, 'fault': call(state.get('exc'))})
                ctx.count('lines_after')
                continue
            o, i, w = self.one()
            ops = list(o.operands)
            b = Bad()
            at = rng.randrange(len(ops) + 1)
            if rng.random() < .3: o.operands = ops[:at] + [cm.formatter.MemoryAccessOperand(*(ops[:1] + [b]))] + ops[at:]
            else: o.operands = ops[:at] + [b] + ops[at:]
            exc = an_exception(rng)
            state.update(exc=None, comments=['stale%d' % k for k in range(rng.randrange(3))])
            want = cm.Formatter(None).format(o)
            state['exc'] = exc
            e = attempt(fm.format, o)
            what = {'word': w, 'fault': call(exc), 'raised': call(e)}
            ctx.case(('bad-line', w, at), what)
            if e is not exc: ctx.violate('format-lost', what)
            state['exc'] = None
            if rng.random() < .5:
                got = fm.format(o)
                if got != want: ctx.violate('line-again', dict(what, got=got, want=want))
            ctx.count('lines_faulted')

    def handlers(self, holder):
        """An added encoding whose handler fails now and then, alone and in a stream."""
        ctx, rng = self.ctx, self.rng
        base = rng.choice((0, 2, 0x8000, 0x20000000))
        items = []
        for _ in range(rng.randrange(1, 9)):
            if rng.random() < .3: items.append((holder['word'](), None))
            else:
                o, i, w = self.one()
                items.append((b''.join(int(x, 16).to_bytes(2, 'little') for x in w.split()), None))
        data = b''.join(x for x, _ in items)
        mine = [k for k, (x, _) in enumerate(items) if holder['is'](x)]
        holder['exc'] = None
        d = cm.Disassembler()
        facts = lambda i: (i.address, type(i), i.size, i.mnemonic, bytes(i.bytes))
        want = [facts(i) for i in d.disasm(data, base)]
        exc = an_exception(rng)
        fail = rng.choice(mine) if mine else None
        holder['exc'], holder['after'] = (exc, mine.index(fail)) if mine else (None, 0)
        got, e = [], None
        it = d.disasm(bytearray(data) if rng.random() < .5 else data, base)
        try:
            for i in it: got.append(facts(i))
        except BaseException as x:
            e = x
        holder['exc'] = None
        what = {'data': data.hex(), 'fault': call(exc) if mine else None, 'at_item': fail, 'raised': call(e)}
        ctx.case(('stream', data, fail), what)
        if mine:
            if e is not exc: ctx.violate('handler-lost', what)
            if got != want[:fail]: ctx.violate('stream-before-fault', dict(what, got=len(got), want=fail))
            ctx.count('streams_faulted')
        elif e is not None or got != want: ctx.violate('stream', what)
        again = [facts(i) for i in d.disasm(data, base)]
        if again != want: ctx.violate('stream-after-fault', dict(what, got=len(again), want=len(want)))
        # one word
        w = holder['word']()
        exc = an_exception(rng)
        holder['exc'], holder['after'] = exc, 0
        e = attempt(cm.decoder.decode, w + b'\0\0', base)
        holder['exc'] = None
        ctx.case(('decode', w, type(exc)), {'word': w.hex(), 'fault': call(exc)})
        if e is not exc: ctx.violate('handler-lost', {'word': w.hex(), 'fault': call(exc), 'raised': call(e)})
        i = cm.decoder.decode(w, base)
        if i.mnemonic != 'flaky' or i.address != base: ctx.violate('decode-after-fault', {'word': w.hex(), 'got': repr(i)})
        ctx.count('decodes_faulted')


def add_flaky(rng):
    """A 16-bit encoding, in space that nothing uses, whose handler raises when told to."""
    holder = {'exc': None, 'after': 0}
    while True:
        h = rng.getrandbits(16) & 0xfff8
        if h >> 11 in (0x1d, 0x1e, 0x1f): continue
        if all(core.real_decode(tobytes(h | k), 0) == UNDEF for k in range(8)): break

    def handler(i, abc):
        if holder['exc'] is not None:
            if holder['after'] == 0: raise holder['exc']
            holder['after'] -= 1
        i.operands = [cm.formatter.ImmediateOperand(abc.unsigned)]
    cm.dmod.instr('flaky', cm.dmod.Instruction, '{0:013b} abc(3)'.format(h >> 3))(handler)
    cm.decoder.build()
    holder['word'] = lambda: (h | rng.getrandbits(3)).to_bytes(2, 'little')
    holder['is'] = lambda x: len(x) == 2 and int.from_bytes(x, 'little') & 0xfff8 == h
    return holder


def run(ctx):
    rng = ctx.rng
    ch = Checker(ctx, rng)
    for _ in range(ctx.n(5000, 700000)): ch.single()
    for _ in range(ctx.n(1600, 240000)): ch.program()
    for _ in range(ctx.n(2400, 200000)): ch.accessor()
    for _ in range(ctx.n(1600, 80000)): ch.lines()
    holder = add_flaky(rng)
    for _ in range(ctx.n(1200, 80000)): ch.handlers(holder)
    ctx.sample({'rigs': [r.kind for r in ch.rigs]})
