"""C28: several CPU models, disassemblers and formatters interleaved, in one thread and in many, against solo runs."""
import sys, threading
import arm, core
from core import (cm, Machine, Recorder, SparseBackend, HashMem, RegionMem, REGIONS, random_state, describe, encodings,
                  real_decode, tobytes, hexw, M32)


class Job(object):
    """One CPU's work: an initial state and a list of actions; run on any instruction objects gives its results."""

    def __init__(self, rng, pick, words, nact):
        self.kind = rng.choice(('mock', 'sparse'))
        self.own_formatter = rng.random() < .6     # else one without a CPU
        self.seed = rng.getrandbits(40)
        r2 = core.random.Random(self.seed)
        probe = Machine(self.kind, r2)
        self.state = random_state(r2, probe.mem0)
        self.actions = []
        for _ in range(nact):
            k = rng.random()
            j = rng.randrange(len(words))
            if k < .62: self.actions.append(('exec', j, rng.random() < .3))
            elif k < .74: self.actions.append(('format', j))
            elif k < .84: self.actions.append(('decode', j, core.even_pc(rng)))
            elif k < .92: self.actions.append(('stream',))
            else: self.actions.append(('flags', rng.getrandbits(4)))
        self.code = bytearray()
        for _ in range(12):
            h1, h2, i = pick()
            self.code += tobytes(h1, h2)
        self.base = core.even_pc(rng)

    def start(self, objs, words, dis=None, fmt=None):
        return Run(self, objs, words, dis, fmt)


class Run(object):
    def __init__(self, job, objs, words, dis=None, fmt=None):
        self.job, self.objs, self.words = job, objs, words
        self.m = Machine(job.kind, core.random.Random(job.seed))
        s = job.state
        self.m.load_state(s)
        self.fmt = cm.Formatter(self.m.cpu) if job.own_formatter else fmt or cm.Formatter(None)
        self.stream = (dis or cm.Disassembler()).disasm(job.code, job.base)
        self.out = []
        self.pos = 0

    def step(self):
        a = self.job.actions[self.pos]
        self.pos += 1
        try:
            self.act(a)
        except Exception as e:
            self.out.append(('exception', type(e).__name__, str(e)))

    def act(self, a):
        m = self.m
        if a[0] == 'exec':
            o = self.objs[a[1]]
            if o is None: return
            if a[2]: m.cpu.execute([o])
            else: o.execute(m.cpu)
            self.out.append(('pc', int(m.cpu.pc)))
        elif a[0] == 'format':
            o = self.objs[a[1]]
            if o is not None: self.out.append(self.fmt.format(o))
        elif a[0] == 'decode':
            h1, h2, i = self.words[a[1]]
            o = real_decode(tobytes(h1, h2), a[2])
            self.out.append(o if isinstance(o, str) else (o.mnemonic, o.address, bytes(o.bytes), self.fmt.format(o)))
            if not isinstance(o, str):
                o.execute(m.cpu)
        elif a[0] == 'stream':
            try:
                o = next(self.stream, None)
                self.out.append(None if o is None else (o.address, self.fmt.format(o)))
            except (cm.Undefined, cm.Unpredictable) as e:
                self.out.append(type(e).__name__)
        else:
            for b, n in zip((3, 2, 1, 0), 'nzcv'):
                setattr(m.cpu.apsr, n, (a[1] >> b) & 1)

    def result(self):
        m = self.m
        r, sp = m.regs()
        mem = sorted(m.backend.mem.image().items()) if self.job.kind == 'sparse' else \
            [bytes(m.backend.read_memory_block(s, n)) for s, n in REGIONS]
        return r, sp, mem, list(m.rec.log), self.out


def differences(a, b):
    out = []
    for n, x, y in zip(('registers', 'specials', 'memory', 'events', 'output'), a, b):
        if x != y:
            if n == 'output':
                k = [p == q for p, q in zip(x, y)].index(False) if any(p != q for p, q in zip(x, y)) else min(len(x), len(y))
                x, y = x[k:k + 1], y[k:k + 1]
            if n == 'events': x, y = x[:6], y[:6]
            if n == 'memory': x, y = 'image', 'differs'
            out.append({'what': n, 'got': x, 'alone': y})
    return out


def decode_all(words, addrs):
    out = []
    for (h1, h2, i), a in zip(words, addrs):
        o = real_decode(tobytes(h1, h2), a)
        out.append(None if isinstance(o, str) else o)
    return out


class Baton(object):
    """Runs functions in threads, one at a time, switching at traced source lines as a seeded generator decides."""

    def __init__(self, rng, src, p):
        self.rng, self.src, self.p = rng, src, p
        self.locks = []
        self.alive = []
        self.switches = 0
        self.sig = 0
        self.errors = []
        self.lines = 0
        self.free = False       # threads run as they like: the one with the baton waits for something another one holds

    def run(self, fns):
        self.locks = [threading.Semaphore(0) for _ in fns]
        self.alive = list(range(len(fns)))
        self.done = threading.Semaphore(0)
        ts = []
        for k, fn in enumerate(fns):
            t = threading.Thread(target=self.body, args=(k, fn))
            t.daemon = True
            ts.append(t)
            t.start()
        self.locks[self.rng.choice(self.alive)].release()
        while not self.done.acquire(timeout=5): pass
        for t in ts: t.join()

    def body(self, k, fn):
        self.locks[k].acquire()
        src, rnd, p = self.src, self.rng.random, self.p

        def local(frame, event, arg):
            if event == 'line':
                self.lines += 1
                if rnd() < p: self.switch(k, frame)
            return local

        def tracer(frame, event, arg):
            return local if frame.f_code.co_filename.startswith(src) else None
        sys.settrace(tracer)
        try:
            fn()
        except BaseException as e:
            self.errors.append(repr(e))
        finally:
            sys.settrace(None)
            self.alive.remove(k)
            if self.free:
                if not self.alive: self.done.release()
            elif self.alive: self.locks[self.rng.choice(self.alive)].release()
            else: self.done.release()

    def switch(self, k, frame):
        if self.free: return
        n = self.rng.choice(self.alive)
        if n == k: return
        self.switches += 1
        self.sig = hash((self.sig, k, n, frame.f_code.co_name, frame.f_lineno))
        self.locks[n].release()
        seen = -1
        while not self.locks[k].acquire(timeout=1):
            if self.free: return
            if seen == self.lines:
                self.free = True
                for l in self.locks: l.release()
                return
            seen = self.lines


class Meddler(object):
    """A delegate during whose accesses something else happens."""

    def __init__(self, inner, meddle): self.inner, self.meddle = inner, meddle

    def _do(self, name, *a):
        self.meddle()
        r = getattr(self.inner, name)(*a)
        self.meddle()
        return r
    def read_register(self, *a): return self._do('read_register', *a)
    def write_register(self, *a): return self._do('write_register', *a)
    def read_memory(self, *a): return self._do('read_memory', *a)
    def write_memory(self, *a): return self._do('write_memory', *a)


class CallLog(object):
    """A delegate that records the exact arguments it is given."""
    def __init__(self): self.calls, self.ret = [], 0
    def read_register(self, reg):
        self.calls.append(('rr', reg))
        return self.ret
    def write_register(self, reg, value): self.calls.append(('wr', reg, value))
    def read_memory(self, addr, size=32):
        self.calls.append(('rm', addr, size))
        return self.ret
    def write_memory(self, addr, value, size=32): self.calls.append(('wm', addr, value, size))
    def read_memory_block(self, addr, length):
        self.calls.append(('rb', addr, length))
        return bytearray(4)
    def write_memory_block(self, addr, data):
        self.calls.append(('wb', addr, len(data)))


def boundary(ctx):
    """The CPU/delegate interface: exact arguments, plain integers, and nothing kept on the CPU side."""
    rng, bs = ctx.rng, cm.bitstring
    cpus = []
    for _ in range(3):
        c = cm.CpuModel()
        c.delegate = CallLog()
        cpus.append(c)
    names = list(cm.REG.items())
    for _ in range(ctx.n(60000, 600000)):
        if rng.random() < .1:
            rng.choice(cpus).delegate = CallLog()
        c = rng.choice(cpus)
        d = c.delegate
        others = [(x.delegate, len(x.delegate.calls)) for x in cpus if x.delegate is not d]
        del d.calls[:]
        v = core.value(rng)
        a = core.value(rng)
        d.ret = core.value(rng)
        aa = bs(a, 32) if rng.random() < .5 else a
        size = rng.choice((8, 16, 32))
        op = rng.randrange(10)
        got = want_ret = None
        if op == 0:
            n, k = rng.choice(names)
            vv = bs(v, 32) if rng.random() < .5 else v
            c.write_register(n if rng.random() < .5 else k, vv)
            want = [('wr', k, v)]
        elif op == 1:
            n, k = rng.choice(names)
            got, want, want_ret = c.read_register(n if rng.random() < .5 else k), [('rr', k)], (d.ret, 32)
        elif op == 2:
            k = rng.randrange(16)
            c.r[k] = bs(v, 32) if rng.random() < .5 else v
            want = [('wr', k, v)]
        elif op == 3:
            k = rng.randrange(16)
            got, want, want_ret = c.r[k], [('rr', k)], (d.ret, 32)
        elif op == 4:
            k = rng.randrange(32)
            if rng.random() < .5:
                c.s[k] = bs(v, 32)
                want = [('wr', 0x40 + k, v)]
            else:
                got, want, want_ret = c.s[k], [('rr', 0x40 + k)], (d.ret, 32)
        elif op == 5:
            n, k = rng.choice([('pc', 15), ('lr', 14), ('sp', 13), ('msp', 17), ('psp', 18), ('xpsr', 16)])
            if rng.random() < .5:
                setattr(c, n, bs(v, 32) if rng.random() < .5 else v)
                want = [('wr', k, v)]
            else:
                got, want, want_ret = getattr(c, n), [('rr', k)], (d.ret, 32)
        elif op in (6, 7):
            d.ret &= (1 << size) - 1
            if rng.random() < .5: got = c.read_memory(aa, size)
            else: got = {8: c.read8, 16: c.read16, 32: c.read32}[size](aa)
            want, want_ret = [('rm', a, size)], (d.ret, size)
        elif op == 9:
            n = rng.choice((0, 1, 4, rng.randrange(100)))
            if rng.random() < .5:
                c.read_memory_block(aa, bs(n, 32) if rng.random() < .3 else n)
                want = [('rb', a, n)]
            else:
                c.write_memory_block(aa, bytearray(n))
                want = [('wb', a, n)]
        else:
            v &= (1 << size) - 1
            vv = bs(v, max(v.bit_length(), rng.choice((size, size, 32, 17 + size, 64, 1)))) if rng.random() < .6 else v
            if rng.random() < .5: c.write_memory(aa, vv, size)
            else: {8: c.write8, 16: c.write16, 32: c.write32}[size](aa, vv)
            want = [('wm', a, v, size)]
        what = {'call': op, 'expected': want}
        ctx.case(('call', op, want[0][:2], size), what)
        if d.calls != want or any(type(z) is not int for z in d.calls[0][1:]) or \
                (want_ret and (not isinstance(got, bs) or (got.unsigned, got.width) != want_ret)):
            ctx.violate('delegate-call', dict(what, got=d.calls, returned=repr(got)))
        if any(len(x.calls) != n for x, n in others):
            ctx.violate('wrong-delegate', what)
        if isinstance(got, bs): got.invert()
        ctx.count('boundary_calls')


def run(ctx):
    rng = ctx.rng
    pick = encodings().picker(lambda i: True, rng)

    # encodings grouped by what they do, so that concurrent work can meet in the same rarely used code
    themes = {}
    for _ in range(12000):
        e = pick()
        i = e[2]
        themes.setdefault((i.op, i.mnem, i.st, i.sn in (0, 32), i.s, i.wback, i.x is None), []).append(e)
    themes = sorted(themes.items(), key=lambda t: repr(t[0]))
    ctx.count('themes', len(themes))

    def setup(ncpu, nwords, nact, theme=None, threads=False):
        words = [rng.choice(theme) if theme else pick() for _ in range(nwords)]
        addrs = [core.even_pc(rng) for _ in words]
        jobs = [Job(rng, pick, words, nact) for _ in range(ncpu)]
        alone = []
        for j in jobs:
            r = j.start(decode_all(words, addrs), words)
            for _ in j.actions: r.step()
            alone.append(r.result())
        shared = decode_all(words, addrs)
        # a disassembler may be shared by all, and a formatter by those that do not preempt each other
        dis = cm.Disassembler() if rng.random() < .5 else None
        fmt = cm.Formatter(None) if not threads and rng.random() < .5 else None
        runs = [j.start(shared, words, dis, fmt) for j in jobs]
        if dis: ctx.count('disassembler_shared')
        if fmt: ctx.count('formatter_shared')
        what = {'encodings': [hexw(h1, h2) for h1, h2, i in words], 'jobs': [(j.kind, j.actions) for j in jobs]}
        return jobs, alone, runs, what

    def verify(kind, runs, alone, what):
        for k, (r, a) in enumerate(zip(runs, alone)):
            d = differences(r.result(), a)
            if d: ctx.violate(kind, dict(what, cpu=k, differences=d))
            if r.m.problems: ctx.violate('delegate-types', dict(what, cpu=k, problems=r.m.problems[:4]))

    # one thread, interleaved per action
    for n in range(ctx.n(1600, 20000)):
        jobs, alone, runs, what = setup(rng.choice((2, 2, 3, 4)), rng.choice((2, 4, 8)), rng.choice((6, 12, 25)))
        ctx.cur = what
        order = [k for k, j in enumerate(jobs) for _ in j.actions]
        rng.shuffle(order)
        for k in order: runs[k].step()
        ctx.case(('interleaved', tuple(order)), what)
        verify('interleaved', runs, alone, what)
        ctx.count('interleaved_runs')
        ctx.count('actions', len(order))

    # replacing a CPU's delegate switches all of its state
    for n in range(ctx.n(800, 8000)):
        jobs, alone, runs, what = setup(2, 4, 12)
        ctx.cur = what
        cpu = cm.ConfCpu()
        fmts = [cm.Formatter(cpu), cm.Formatter(None)]
        conf = [(r.m.cpu.it, r.m.cpu.dsp, r.m.cpu.fp, r.m.cpu.mode) for r in runs]
        order = [k for k, j in enumerate(jobs) for _ in j.actions]
        rng.shuffle(order)
        last = None
        for k in order:
            r = runs[k]
            if last != k:
                cpu.delegate = r.m.rec
                cpu.it, cpu.dsp, cpu.fp, cpu.mode = conf[k]
                ctx.count('delegate_switches')
                last = k
            r.m.cpu, r.fmt = cpu, rng.choice(fmts)
            r.step()
        for k, r in enumerate(runs):
            cpu.delegate = r.m.rec
            d = differences(r.result(), alone[k])
            if d: ctx.violate('delegate-switch', dict(what, cpu=k, differences=d))
        ctx.case(('switch', tuple(order)), what)
        ctx.count('switch_runs')

    boundary(ctx)

    # nested: an access by one CPU makes others work (peripherals, several cores), down to some depth
    for n in range(ctx.n(800, 8000)):
        jobs, alone, runs, what = setup(rng.choice((2, 3, 4)), rng.choice((1, 2, 4)), rng.choice((6, 12)))
        ctx.cur = what
        busy, left, order, p = set(), [0], [], rng.choice((.03, .1, .3))

        def advance(k):
            busy.add(k)
            order.append((k, len(busy)))
            runs[k].step()
            busy.discard(k)

        def meddle():
            if rng.random() < p:
                free = [k for k in range(len(runs)) if k not in busy and runs[k].pos < len(jobs[k].actions)]
                if free:
                    ctx.count('nested_steps')
                    advance(rng.choice(free))
        for r in runs: r.m.rec.inner = Meddler(r.m.rec.inner, meddle)
        while True:
            live = [k for k in range(len(runs)) if runs[k].pos < len(jobs[k].actions)]
            if not live: break
            advance(rng.choice(live))
        for r in runs: r.m.rec.inner = r.m.rec.inner.inner
        ctx.case(('nested', tuple(order)), what)
        verify('nested', runs, alone, what)
        ctx.count('nested_runs')

    # real threads, preempted at source lines of the package
    sigs = set()
    start = ctx.shard * len(themes) // ctx.nshards
    for n in range(ctx.n(1200, 8000)):
        theme = themes[(start + n) % len(themes)][1] if n % 4 else None
        jobs, alone, runs, what = setup(rng.choice((2, 3)), rng.choice((1, 2, 4)), rng.choice((4, 8)), theme, True)
        ctx.cur = what
        b = Baton(rng, ctx.src, rng.choice((.02, .1, .3)))

        def body(r):
            def go():
                for _ in r.job.actions: r.step()
            return go
        def rebuild():
            try: cm.decoder.build()
            except Exception as e: ctx.violate('rebuild', dict(what, exception='%s: %s' % (type(e).__name__, e)))
        bodies = [body(r) for r in runs]
        if n % 8 == 3:
            # and one that rebuilds the decoder all the while
            what['rebuilding'] = True
            b.p = .02
            bodies.append(rebuild)
            ctx.count('rebuilds_meanwhile')
        b.run(bodies)
        if b.errors:
            raise RuntimeError('scheduler: %s' % b.errors)
        ctx.case(('threads', b.sig), what)
        verify('threads', runs, alone, dict(what, switches=b.switches))
        ctx.count('thread_runs')
        if b.free: ctx.count('thread_runs_unscheduled')
        ctx.count('thread_switches', b.switches)
        sigs.add(b.sig)
    ctx.count('distinct_thread_interleavings', len(sigs))
    ctx.sample({'interleaving signatures': len(sigs), 'last': what})
