"""C26: step, disasm and reset in console sessions against direct decoding and execution on another CPU."""
import arm, asm, core, console
from core import cm, M32, Recorder, encodings, real_decode, tobytes, Insn
from console import RAM, INSN, parse_regs, dump_problem, random_binary
from props.c23 import NAMES
from props.c25 import number


class Ref(object):
    """A CPU driven directly: the state a session has to match."""

    def __init__(self, binary):
        self.cpu = cm.CpuModel()
        self.mock = cm.Mock()
        self.rec = Recorder(self.mock)
        self.cpu.delegate = self.rec
        m = console.fresh(binary)
        self.regions = []
        for s, b in m.mem.regs:
            self.mock.add_memory(s, len(b))
            self.mock.write_memory_block(s, bytearray(b))
            self.regions.append((s, len(b)))
        for k in (15, 13): self.mock.write_register(k, m.f.r[k])
        self.fmt = cm.Formatter(self.cpu)

    def reg(self, k): return int(self.mock.read_register(k))

    def mapped(self, a): return any(s <= a < s + n for s, n in self.regions)

    def block(self, a, n):
        for s, l in self.regions:
            if s <= a < s + l: return self.mock.read_memory_block(a, min(n, s + l - a))
        return None

    def word(self, a):
        b = self.block(a, 4)
        return b[0] | b[1] << 8 | b[2] << 16 | b[3] << 24

    def reset(self):
        pc, sp = self.word(4), self.word(0)
        if self.mapped(pc): self.mock.write_register(15, pc)
        if self.mapped(sp - 4): self.mock.write_register(13, sp)

    def at(self, a):
        data = self.block(a, 4)
        return arm.UNDEF if not data else real_decode(data, a)

    def listing(self, a, n):
        """What disassembling n bytes from a shows: [(address, text)]."""
        data = self.block(a, n)
        out, k = [], 0
        while data is not None and k < len(data):
            i = real_decode(data[k:k + 4], a + k)
            if isinstance(i, str): break
            out.append((a + k, self.fmt.format(i)))
            k += i.size
        return out


def bad_words(rng, pick, want=400):
    """Encodings that must not be executed: unpredictable or undefined next to valid ones."""
    out, tries = [], 0
    while len(out) < want and tries < 200000:
        tries += 1
        h1, h2, i = pick()
        for _ in range(rng.randrange(1, 5)):
            if h2 is None or rng.random() < .5: h1 ^= 1 << rng.randrange(16)
            else: h2 ^= 1 << rng.randrange(16)
        if h2 is None and h1 >> 11 >= 29: continue
        d = real_decode(tobytes(h1, h2), 8)
        if d == arm.UNPRED or isinstance(d, str) and rng.random() < .05: out.append((h1, h2))
    return out


def body_of(rng, pick):
    k = rng.random()
    if k < .35:
        gen = rng.choice(asm.PROGRAMS)
        try: code, sym = asm.assemble(gen(rng), 8)
        except AssertionError: code, sym = asm.assemble(asm.p_fib(rng), 8)
        if gen is asm.p_dispatch:
            t = sym['t0']
            o = sym['table'] - 8
            code[o:o + 4] = bytearray((t >> (8 * i)) & 255 for i in range(4))
        return code, sym['start']
    out = bytearray()
    for _ in range(rng.randrange(1, 60)):
        if rng.random() < .06: out += bytearray((rng.getrandbits(8), rng.getrandbits(8)))
        h1, h2, i = pick()
        if rng.random() < .04: h1, h2 = rng.choice(user.bad)
        out += tobytes(h1, h2)
    return out, 8


def user(ctx, ref, log, start):
    rng = ctx.rng

    def show(kind, **d):
        ctx.violate(kind, dict(d, session=log[-25:]))

    def say(line):
        log.append(line)
        ctx.cur = log[-25:]
        return line

    def check_regs(out, after):
        got = parse_regs(out)
        want = dict((n, ref.reg(NAMES[n])) for n in console.DUMPED)
        if got != want:
            show('state', after=after,
                 differs=dict((n, (got.get(n), v)) for n, v in want.items() if got.get(n) != v))

    def lines(out):
        r = []
        for l in out.split('\n'):
            g = INSN.match(l)
            if g: r.append((int(g.group(1), 16), g.group(2), g.group(3)))
        return r

    out, err = yield say('reg')
    check_regs(out, 'start')
    if rng.random() < .8:
        yield say('wreg pc 0x%x' % (start | rng.getrandbits(1)))
        ref.mock.write_register(15, int(log[-1].split()[-1], 16))
    for k in range(13):
        if rng.random() < .5:
            v = rng.choice((core.value(rng), RAM + rng.randrange(0x400), RAM + 4 * rng.randrange(0x100),
                            8 + 2 * rng.randrange(40) + 1))
            yield say('wreg r%d %d' % (k, v))
            ref.mock.write_register(k, v)
    for _ in range(rng.randrange(8, 40) if rng.random() < .993 else 1000):
        k = rng.random()
        if k < .6:
            pc = ref.reg(15) & ~1
            i = ref.at(pc)
            del ref.rec.log[:]
            out, err = yield say(rng.choice(('step', 's', 'S', 'step')))
            got = lines(out)
            if isinstance(i, str):
                ctx.count('steps_undecodable')
                if i == arm.UNPRED: ctx.count('steps_unpredictable')
                if not ref.mapped(pc): ctx.count('steps_no_code')
                if got or not (out + err).strip(): show('step-undecodable', pc=hex(pc), output=out)
                if rng.random() < .7:
                    out, err = yield say('reg')
                    check_regs(out, 'undecodable step')
                    v = start + 2 * rng.randrange(40)
                    if rng.random() < .15:
                        s0, l0 = rng.choice(ref.regions)
                        v = rng.choice((s0 + l0, s0 + l0 - 2, s0 + l0 + 2, 0x40000000, 0xfffffffe, s0 + l0 - 4)) & M32
                    yield say('wreg pc 0x%x' % v)
                    ref.mock.write_register(15, v)
                continue
            text = ref.fmt.format(i)
            i.execute(ref.cpu)
            if [(a, t) for a, f, t in got] != [(pc, text)]:
                show('step-line', want=[hex(pc), text], output=out)
            ctx.count('steps')
            out, err = yield say('reg')
            check_regs(out, text)
            for kind, a, size in [e for e in ref.rec.log if e[0] == 'w'][:3]:
                if ref.mapped(a):
                    out, err = yield say('read8 0x%x %d' % (a, size // 8))
                    p = dump_problem(out, 8, a, ref.block(a, size // 8))
                    if p: show('step-memory', problem=p, after=text)
                    ctx.count('stores_checked')
        elif k < .8:
            pc = ref.reg(15)
            j = rng.random()
            opt = rng.choice(('', '', '-c ', '--center '))
            if j < .3:
                a, n, args = pc, 6, rng.choice(('', ' pc', ' PC'))
            elif j < .9 or not opt:
                n = rng.choice((0, 1, 2, 3, 4, 6, 10, 31, 64, rng.randrange(300)))
                if rng.random() < .02:
                    n = rng.randrange(300, 9000)
                    ctx.count('disasm_long')
                s0, l0 = rng.choice(ref.regions)
                a = rng.choice((pc, start + rng.randrange(60), RAM + rng.randrange(64), 0, 0xfffe, 0xfff0, 0x40000000, start,
                                max(pc - rng.randrange(n + 1), 0), s0 + l0 - rng.randrange(1, 40), 0x10000 - rng.randrange(8)))
                if opt: a += n // 2
                args = ' %s %s' % (number(rng, a), number(rng, n))
            else:
                a, n, args = start + 20, 6, ' %s' % number(rng, start + 20)
            line = rng.choice(('disasm', 'd', 'D')) + ' ' + opt + args.strip()
            if opt and args and rng.random() < .3: line = 'd' + args + ' ' + opt.strip()
            if opt: a -= n // 2
            a &= ~1
            if a < 0: continue
            want = [(x, '*' if x == pc & ~1 else ' ', t) for x, t in ref.listing(a, n)]
            out, err = yield say(line)
            if lines(out) != want: show('disasm', want=want, output=out + err)
            ctx.count('disasm')
            ctx.count('disasm_lines', len(want))
            if any(f == '*' for x, f, t in want): ctx.count('disasm_marked')
            if rng.random() < .4:
                out, err = yield say('reg')
                check_regs(out, 'disasm')
        elif k < .9:
            if rng.random() < .7:
                sp = rng.choice((RAM, 0, RAM + 4, RAM + 0x800, RAM + 0x10000, 0x10000, 0x8003, 0x40000000, 0xfffffffc, 0x20008004))
                if sp == RAM: sp = RAM + 8
                pc = rng.choice((start, start | 1, RAM + 1, 0x40000001, 0xffff, 0x10000, RAM + 0xffff, 0xfffffffe, 0))
                yield say('write32 0 %s %s' % (number(rng, sp), number(rng, pc)))
                for j, v in enumerate((sp, pc)):
                    for b in range(4): ref.mock.write_memory(4 * j + b, (v >> (8 * b)) & 255, 8)
                ctx.count('vector_tables')
            if ref.word(0) in range(1, 4): continue
            out, err = yield say(rng.choice(('reset', 'reset -h', 'RESET')))
            ref.reset()
            ctx.count('resets')
            out, err = yield say('reg')
            check_regs(out, 'reset')
        elif k < .96:
            a = start + 2 * rng.randrange(40)
            if rng.random() < .3:
                s0, l0 = rng.choice(ref.regions)
                a = (s0 + l0 - rng.choice((1, 2, 2, 2, 3, 4, 4, 6))) & ~1       # at the end of a memory, or cut by it
                ctx.count('code_at_end')
            h1, h2, i = user.pick()
            while a >= 0x10000 - 6 and h2 is None and rng.random() < .7: h1, h2, i = user.pick()
            if rng.random() < .3: h1, h2 = rng.choice(user.bad)
            b = tobytes(h1, h2)
            yield say('write8 0x%x %s' % (a, ' '.join('0x%02x' % x for x in b)))
            for j, x in enumerate(b): ref.mock.write_memory(a + j, x, 8)
            if rng.random() < .5:
                yield say('wreg pc 0x%x' % a)
                ref.mock.write_register(15, a)
        else:
            reg, v = rng.choice((('control', rng.randrange(4)), ('xpsr', core.value(rng) & 0xf8000000 | 0x01000000),
                                 ('psp', RAM + 4 * rng.randrange(0x200)), ('sp', RAM + 4 * rng.randrange(0x200)),
                                 ('lr', start + 1 + 2 * rng.randrange(20))))
            yield say('wreg %s 0x%x' % (reg, v))
            ref.mock.write_register(NAMES[reg], v)
    for s, n in ref.regions:
        out, err = yield say('read8 0x%x 0x420' % s)
        p = dump_problem(out, 8, s, ref.block(s, 0x420))
        if p: show('memory', problem=p)
        # up to the last byte, and not past it
        out, err = yield say('read8 0x%x 0x40' % (s + n - 0x30))
        p = dump_problem(out, 8, s + n - 0x30, ref.block(s + n - 0x30, 0x30))
        if p: show('memory-end', problem=p)


def run(ctx):
    rng = ctx.rng
    user.pick = encodings().picker(lambda i: True, rng)
    user.bad = bad_words(rng, user.pick)
    for n in range(ctx.n(2000, 50000)):
        if rng.random() < .12:
            binary, start = None, 8
        else:
            body, start = body_of(rng, user.pick)
            if rng.random() < .12:
                body += bytearray(0x10000 - 8 - len(body) + rng.choice((-1, 0, 1, 2, 4, 0x7f, 0x100, 0x1234)))
                tail, at = body_of(rng, user.pick)
                body[-len(tail):] = tail
                ctx.count('images_around_64k')
            binary = random_binary(rng, body)
        log = ['binary: %s' % (None if binary is None else binary.hex() if len(binary) < 2000 else
                               '%d bytes, %s ... %s' % (len(binary), binary[:600].hex(), binary[-200:].hex()))]
        ref = Ref(binary or b'')
        s = console.open_session(ctx, user(ctx, ref, log, start), binary, n)
        ctx.case(tuple(log), log[-25:])
        ctx.count('sessions_without_binary' if binary is None else 'sessions')
        if s.died or s.code != 0 or s.unfinished:
            ctx.violate('session', {'session': log[-25:], 'died': s.died, 'code': s.code, 'unfinished': s.unfinished})
        if n < 2: ctx.sample({'session': log[1:10]})
