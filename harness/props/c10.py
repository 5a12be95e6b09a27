"""C10: the frame condition and exactly-once memory accesses, from the delegate's event log."""
import arm, core
from stepping import Stepper

MASKS = {'primask', 'basepri', 'faultmask', 'control', 'msp', 'psp'}


def run(ctx):
    def judge(h1, h2, i, d, o, diffs):
        ctx.count('delegate_events', o.nevents)
        bad = list(o.frame)
        stored = set()
        if i.op in ('str', 'push', 'stm'):
            ctx.count('storing')
        elif i.op in ('ldr', 'ldrlit', 'pop', 'ldm'):
            ctx.count('loading')
        else:
            ctx.count('no_memory')
        for x in o.mem[:40]:
            if not touched(i, d, x[0]):
                bad.append(('memory',) + tuple(x))
        # flags it does not own, LR in branches that do not link, and special registers other than the selected one
        own = arm.owned_flags(i, d['in_it'])
        if i.op != 'msr':
            bad += [x for x in o.flags if x[0] not in own]
        if i.op in ('b', 'bx'):
            bad += o.lr
        for x in o.sysregs:
            if x[0] == 'xpsr':
                if (int(x[1], 16) ^ o.before.xpsr) & 0x07f0ffff: bad.append(x)
            elif x[0] in MASKS and '%08x' % getattr(o.before, x[0]) == x[2]: bad.append(x)
            elif x[0] == 'r13' and '%08x' % o.before.r[13] == x[2]: bad.append(x)
        if i.op in ('cps', 'msr'): ctx.count('special_register_writers')
        if o.events:
            bad.append(('events',) + tuple(o.events))
        return bad

    def touched(i, d, a):
        """Whether the instruction stores byte a (its value is then property C07/C08)."""
        if i.op not in ('str', 'push', 'stm') or isinstance(a, str):
            return False
        r = [int(x, 16) for x in d['r']]
        if i.op == 'str':
            off = i.imm if i.imm is not None else (r[i.m] << i.sn) & 0xffffffff
            lo, n = (r[i.n] + off) & 0xffffffff, i.msize // 8
        else:
            n = 4 * bin(i.regs).count('1')
            lo = (r[13] - n if i.op == 'push' else r[i.n]) & 0xffffffff
        return (a - lo) & 0xffffffff < n

    st = Stepper(ctx, lambda i: True, fresh=100)
    st.run(ctx.n(100000, 5000000), judge)
    st.done()
    st = Stepper(ctx, lambda i: i.op in ('ldr', 'str', 'ldrlit', 'push', 'pop', 'ldm', 'stm'), fresh=100)
    st.run(ctx.n(60000, 2500000), judge)

    def tweak(rng, s, i):
        s.control, s.handler = rng.randrange(8), rng.random() < .3
        s.basepri, s.primask, s.faultmask = rng.getrandbits(8), rng.getrandbits(1), rng.getrandbits(1)
        s.dsp, s.fp = rng.random() < .5, rng.random() < .5
        s.r[13] = s.psp if s.control & 2 else s.msp
    st = Stepper(ctx, lambda i: i.op in ('cps', 'msr', 'mrs'), fresh=100)
    st.run(ctx.n(12000, 400000), judge, tweak)
