"""C13: whole programs, fetched from simulated memory, in lock step with the model machine."""
import arm, core, asm
from core import cm, M32, Machine, random_state, step_compare, describe, encodings, real_decode, tobytes, hexw, pc_operand, Insn

EDGES = (0x2000, 0x10000, 0x08001000, 0x10000000, 0x1fff9000, 0x7ffff000, 0x80000000, 0xfffff000)


def place(rng):
    """Where the code goes, and the memory layout: often across a page or power-of-two boundary."""
    code = 0x1000 if rng.random() < .4 else rng.choice(EDGES) - 2 * rng.randrange(0x60)
    return code, [(0x0, 0x100), (code, 0x800), (0x20000000, 0x400), (0x30000001, 0x37)]


def fetch(m, pc):
    """Real fetch: through the CPU, alternating the two ways a front end can read code."""
    data = m.cpu.read_memory_block(pc, 4)
    return data


def lockstep(ctx, m, s, limit, what, halt=None, stop_at=None):
    """Runs until halt, an undecodable or unconstrained instruction, or limit steps. Returns the reason."""
    rng = ctx.rng
    trace = []
    dis = cm.Disassembler()
    cache = {}
    for n in range(limit):
        pc = s.r[15] & ~1
        if halt is not None and pc == halt:
            return 'halted', n
        data = bytearray(s.mem.load(pc + k) for k in range(4) if s.mem.mapped(pc + k))
        mi = arm.decode_bytes(data)
        fetched = m.cpu.read_memory_block(pc, 4)
        del m.rec.log[:]
        if fetched is None or len(fetched) < 2:
            return 'left-memory', n
        if rng.random() < .5:
            obj = real_decode(fetched, pc)
        else:
            try:
                obj = next(dis.disasm(fetched, pc), arm.UNDEF)
            except cm.Undefined:
                obj = arm.UNDEF
            except cm.Unpredictable:
                obj = arm.UNPRED
        if mi.__class__ is not Insn or obj in (arm.UNDEF, arm.UNPRED):
            if (mi.__class__ is Insn) != (obj not in (arm.UNDEF, arm.UNPRED)):
                ctx.case(None, what)
                ctx.violate('decode', dict(what, step=n, trace=trace[-12:], observed=repr(obj), expected=repr(mi)))
                return 'diverged', n
            return 'undecodable', n
        if mi.soft or pc_operand(mi):
            return 'unconstrained', n
        trace.append('%x: %s %s' % (s.r[15], hexw(mi.word & 0xffff, mi.word >> 16 if mi.size == 4 else None), mi.mnem))
        # reuse the object decoded the first time this address was reached, when the bytes are the same
        key = (pc, mi.word)
        if key in cache and rng.random() < .5:
            obj = cache[key]
            ctx.count('reused_objects')
        else:
            cache[key] = obj
        ctx.case((pc, mi.word, s.r[0], s.xpsr >> 28), dict(what, step=n, trace=trace[-12:]))
        if rng.random() < .5:
            holder = obj

            class One(object):
                def execute(self, cpu):
                    cpu.execute([holder])
            obj = One()
        o = step_compare(m, obj, mi, s)
        ctx.count('steps')
        if o.kind: ctx.count('transfers')
        bad = o.all()
        if bad:
            ctx.violate('program', dict(what, step=n, trace=trace[-12:], diffs=bad))
            return 'diverged', n
        if o.kind == 'pc-loaded':
            s.r[15] = o.after[0][15]        # bit 0 of a loaded PC is not constrained
    return 'limit', limit


def contents(m, layout):
    return [bytes(m.backend.read_memory_block(a, n)) for a, n in layout]


def whole_run(ctx, m, start, layout, steps, what):
    """The same run by a single execute() call, whose argument fetches and decodes as the CPU advances."""
    rng = ctx.rng
    want = m.regs(), contents(m, layout)
    state, mem = start
    for (a, n), data in zip(layout, mem): m.backend.write_memory_block(a, data)
    m.load_state(state)

    def program():
        for _ in range(steps):
            pc = m.cpu.pc.unsigned & ~1
            yield real_decode(m.cpu.read_memory_block(pc, 4), pc)
    m.cpu.execute(program())
    got = m.regs(), contents(m, layout)
    if got != want:
        ctx.violate('whole-run', dict(what, steps=steps, registers=repr(got[0]), expected=repr(want[0]),
                                      memory_differs=got[1] != want[1]))
    ctx.count('whole_runs')


def long_list(ctx, pool):
    """One execute() call on a sequence of thousands of decoded instructions, some objects in it many times."""
    rng = ctx.rng
    layout = [(0x20000000, 0x400), (0x30000001, 0x37)]
    m = Machine('mock', rng, layout=layout)
    s = random_state(rng, m.mem0)
    core.setsp(s, 0x20000200 + 4 * rng.randrange(32))
    todo = []
    while len(todo) < 60:
        h1, h2, i = pool()
        if i.op in ('stm', 'push', 'ldm', 'pop') and i.n == 13 or i.op in ('push', 'pop') or i.soft: continue
        if i.op == 'stm' and i.wback and i.regs >> i.n & 1: continue
        obj = real_decode(tobytes(h1, h2), rng.getrandbits(31) << 1)
        if obj in (arm.UNDEF, arm.UNPRED): continue
        todo.append((obj, i))
    n = rng.randrange(4000, 9000) if rng.random() < .8 else rng.randrange(15000, 20000)
    order = [rng.choice(todo) for _ in range(n)]
    for k in range(13): s.r[k] = rng.choice((0x20000000, 0x30000001)) + rng.randrange(0x200)
    m.load_state(s)
    what = {'program': 'one execute() call', 'instructions': n,
            'of': ['%s %s' % (hexw(i.word & 0xffff, i.word >> 16 if i.size == 4 else None), i.mnem) for o, i in todo]}
    ctx.case(('long', n, s.r[0], todo[0][1].word), what)
    seq = [o for o, i in order]
    m.cpu.execute(rng.choice((list, tuple, iter))(seq))
    for o, i in order:
        s.events = []
        arm.execute(i, s)
    r, sp = m.regs()
    diffs = [('r%d' % k, hex(r[k]), hex(s.r[k])) for k in range(16) if r[k] != s.r[k]]
    diffs += [(k, hex(v), hex(getattr(s, k))) for k, v in sp.items() if v != getattr(s, k)]
    diffs += m.mem_diffs(s.mem)[:8]
    if diffs: ctx.violate('long-list', dict(what, diffs=diffs))
    ctx.count('long_lists')
    ctx.count('long_list_steps', n)


def put(m, s, addr, data):
    for k, v in enumerate(data):
        s.mem.store(addr + k, v)
    m.backend.write_memory_block(addr, bytes(data))


def run(ctx):
    rng = ctx.rng
    enc = encodings()
    pick = enc.picker(lambda i: not pc_operand(i), rng)
    straight = enc.picker(lambda i: not pc_operand(i) and i.fam not in ('bcond', 'b', 'bl', 'branch')
                          and i.d != 15, rng)
    # structured programs
    for k in range(ctx.n(1600, 60000)):
        gen = asm.PROGRAMS[(k + ctx.shard) % len(asm.PROGRAMS)]
        CODE, layout = place(rng)
        base = CODE + rng.choice((0, 0, 2, 4, 6)) + 4 * rng.randrange(8)
        try:
            code, sym = asm.assemble(gen(rng), base)
        except AssertionError:
            base &= ~3
            code, sym = asm.assemble(gen(rng), base)
        if sym['start'] >> 12 != (base + len(code)) >> 12: ctx.count('programs_across_a_page')
        m = Machine('mock', rng, layout=layout)
        s = random_state(rng, m.mem0)
        s.in_it = False
        put(m, s, base, code)
        if gen is asm.p_dispatch:
            put(m, s, sym['table'], core.tobytes(*divmod_words(sym['t0'])))
        core.setsp(s, 0x20000400 - 8 * rng.randrange(4))
        s.r[15] = sym['start']
        m.load_state(s)
        what = {'program': gen.__name__, 'base': hex(base), 'code': bytes(code).hex()}
        lazy = s.copy(), contents(m, layout)
        why, n = lockstep(ctx, m, s, 1500, what, halt=sym['halt'])
        if why == 'halted' and rng.random() < .3: whole_run(ctx, m, lazy, layout, n, what)
        ctx.count('structured_' + why)
        ctx.count('structured_programs')
        if k < 3: ctx.sample(dict(what, ended=why, steps=n))
    for k in range(ctx.n(40, 1600)): long_list(ctx, straight)
    # random programs: arbitrary instructions, wild branches redirected into the code when they leave it
    for k in range(ctx.n(4000, 200000)):
        CODE, layout = place(rng)
        m = Machine('mock', rng, layout=layout)
        s = random_state(rng, m.mem0)
        s.in_it = False
        off = 0
        wild = rng.random() < .4
        while off < 0x200:
            if rng.random() < .12 and not wild:
                # a short branch inside the code
                d = rng.randrange(-20, 20)
                h = 0xe000 | d & 0x7ff if rng.random() < .3 else 0xd000 | rng.randrange(14) << 8 | d & 0xff
                b = tobytes(h)
            else:
                h1, h2, i = (pick if wild else straight)()
                b = tobytes(h1, h2)
            put(m, s, CODE + off, b)
            off += len(b)
        for r in range(13):
            if rng.random() < .6:
                s.r[r] = rng.choice((0x20000000, 0x20000100, 0x30000001, CODE)) + rng.randrange(0x200)
        core.setsp(s, 0x20000200 + 4 * rng.randrange(32))
        s.r[15] = CODE
        m.load_state(s)
        what = {'program': 'random', 'wild': wild}
        left = 150
        while left > 0:
            why, n = lockstep(ctx, m, s, left, what)
            left -= n + 1
            ctx.count('random_' + why)
            if why == 'diverged':
                break
            # continue somewhere else in the code with the state reached so far
            s.r[15] = CODE + 2 * rng.randrange(0x100)
            m.backend.write_register(15, s.r[15])
        ctx.count('random_programs')


def divmod_words(v):
    return v & 0xffff, v >> 16
