"""C08: block transfers against the model, and pop as the inverse of push over nested histories."""
import arm, core
from core import cm, M32, Machine, random_state, tobytes, real_decode, value, hexw
from stepping import Stepper

FAMS = ('push', 'pop', 'stm', 'ldm')


def enc_push(rng, regs):
    """Encodings of push for a list, in random order of preference."""
    out = []
    if not regs & ~0x40ff: out.append((0xb400 | (regs >> 14) << 8 | regs & 0xff, None))
    if arm.popcount(regs) >= 2: out.append((0xe92d, regs))
    else: out.append((0xf84d, (regs.bit_length() - 1) << 12 | 0xd04))
    return rng.choice(out)


def enc_pop(rng, regs):
    out = []
    if not regs & ~0x80ff: out.append((0xbc00 | (regs >> 15) << 8 | regs & 0xff, None))
    if arm.popcount(regs) >= 2: out.append((0xe8bd, regs))
    else: out.append((0xf85d, (regs.bit_length() - 1) << 12 | 0xb04))
    return rng.choice(out)


def nested(ctx):
    """A well-nested history of pushes and pops, with registers clobbered in between."""
    rng = ctx.rng
    m = Machine(rng.choice(('sparse', 'mock')), rng)
    s = random_state(rng, m.mem0)
    top = 0x20000200 - 4 * rng.randrange(4) if m.kind == 'mock' else (rng.getrandbits(32) & ~3)
    core.setsp(s, top)
    m.load_state(s)
    cpu = m.cpu
    stack, trace = [], []
    low = 0x20000000
    for _ in range(rng.choice((2, 4, 8, 20, 40))):
        sp = int(cpu.sp)
        if stack and rng.random() < .5:
            regs, saved, sp0, use_pc = stack.pop()
            h1, h2 = enc_pop(rng, (regs & ~0x4000 | 0x8000) if use_pc else regs)
            i = real_decode(tobytes(h1, h2), 0x1000)
            cpu.pc = 0x1000
            trace.append('pop ' + hexw(h1, h2))
            ctx.case((h1, h2, len(stack), sp), {'trace': trace})
            i.execute(cpu)
            for k, v in saved:
                got = int(cpu.pc) if (k == 14 and use_pc) else int(cpu.r[k])
                if got != v and not (k == 14 and use_pc and got == v & ~1):
                    ctx.violate('not-restored', {'trace': trace, 'register': k, 'observed': hex(got), 'expected': hex(v)})
            if int(cpu.sp) != sp0:
                ctx.violate('sp-not-restored', {'trace': trace, 'observed': hex(int(cpu.sp)), 'expected': hex(sp0)})
            if not use_pc and int(cpu.pc) != 0x1000 + (2 if h2 is None else 4):
                ctx.violate('pc', {'trace': trace, 'observed': hex(int(cpu.pc))})
            ctx.count('pops_matched')
        else:
            regs = 0
            while not regs:
                k = rng.random()
                regs = rng.getrandbits(8) if k < .4 else rng.getrandbits(16) & 0x5fff if k < .8 else 1 << rng.randrange(8)
                if rng.random() < .3: regs |= 0x4000
            if m.kind == 'mock' and sp - 4 * arm.popcount(regs) < low:
                continue
            saved = [(k, int(cpu.r[k])) for k in range(15) if (regs >> k) & 1]
            h1, h2 = enc_push(rng, regs)
            i = real_decode(tobytes(h1, h2), 0x1000)
            cpu.pc = 0x1000
            trace.append('push ' + hexw(h1, h2))
            ctx.case((h1, h2, len(stack), sp), {'trace': trace})
            i.execute(cpu)
            if int(cpu.sp) != (sp - 4 * len(saved)) & M32:
                ctx.violate('sp', {'trace': trace, 'observed': hex(int(cpu.sp)), 'before': hex(sp)})
            for n, (k, v) in enumerate(saved):
                if int(cpu.read32((int(cpu.sp) + 4 * n) & M32)) != v:
                    ctx.violate('layout', {'trace': trace, 'slot': n, 'register': k})
            stack.append((regs, saved, sp, bool(regs & 0x4000) and rng.random() < .6))
            ctx.count('pushes')
        for k in range(15):
            if k != 13 and rng.random() < .5:
                cpu.r[k] = value(rng)
    ctx.count('nesting_depth_left', len(stack))


def run(ctx):
    def judge(h1, h2, i, d, o, diffs):
        ctx.count(i.op)
        bad = list(o.dest) + list(o.mem[:8])
        if i.op in ('pop', 'ldm') and i.regs & 0x8000:
            bad += o.pc
            ctx.count('loads_pc')
        base = 'r%d' % (13 if i.op in ('push', 'pop') else i.n)
        bad += [x for x in o.frame if x[0] in (base, 'msp', 'psp')]
        return bad

    st = Stepper(ctx, lambda i: i.fam in FAMS)
    st.run(ctx.n(60000, 3000000), judge)
    st.done()
    for k in range(ctx.n(4000, 120000)):
        nested(ctx)
