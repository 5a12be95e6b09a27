"""C11: system-register and hint instructions (oracle: arm.execute over all special registers)."""
import arm, core
from core import tobytes
from stepping import Stepper

FAMS = ('mrs', 'msr', 'cps', 'barrier', 'exc', 'hint')


def run(ctx):
    def judge(h1, h2, i, d, o, diffs):
        ctx.count(i.fam)
        priv = d['handler'] or not d['control'] & 1
        ctx.count('privileged' if priv else 'unprivileged')
        return diffs

    def tweak(rng, s, i):
        s.control = rng.randrange(8)
        s.handler = rng.random() < .3
        if rng.random() < .7:
            s.xpsr = rng.getrandbits(32)
        s.dsp, s.fp = rng.random() < .5, rng.random() < .5
        s.basepri = rng.getrandbits(8)
        s.r[13] = s.psp if s.control & 2 else s.msp

    st = Stepper(ctx, lambda i: i.fam in FAMS)
    st.run(ctx.n(60000, 3000000), judge, tweak)
    # every special register x destination, several machine configurations each
    for k in range(ctx.shard, 16 * len(core.SYS), ctx.nshards):
        h2 = 0x8000 | (k % 16) << 8 | core.SYS[k // 16]
        i = arm.decode(0xf3ef, h2)
        if i.__class__ is core.Insn:
            for _ in range(24):
                st.one(0xf3ef, h2, i, judge, tweak)
    for k in range(ctx.shard, 16 * 4 * len(core.SYS), ctx.nshards):
        h2 = 0x8000 | (k // 16 % 4) << 10 | core.SYS[k // 64]
        i = arm.decode(0xf380 | k % 16, h2)
        if i.__class__ is core.Insn:
            for _ in range(12):
                st.one(0xf380 | k % 16, h2, i, judge, tweak)
    # long on the special-register writers, with values near what the register holds
    def near(rng, s, i):
        tweak(rng, s, i)
        k = rng.random()
        if i.n is not None:
            old = rng.choice((s.basepri, s.control, s.primask, s.faultmask, s.msp, s.psp, s.xpsr))
            if k < .2: s.r[i.n] = rng.getrandbits(9)
            elif k < .4: s.r[i.n] = (old + rng.randrange(-2, 3)) & 0xffffffff
            elif k < .55: s.r[i.n] = old ^ 1 << rng.randrange(32)
            elif k < .65: s.r[i.n] = rng.getrandbits(32) & ~0xff | s.basepri
        if i.op == 'msr' and i.x[0] == 18 and rng.random() < .3: s.basepri = rng.choice((0, 0, 1, 0xff, 0x80))
        if rng.random() < .5: s.control &= ~1
        s.r[13] = s.psp if s.control & 2 else s.msp
    rng = ctx.rng
    for _ in range(ctx.n(60000, 2000000)):
        k = rng.random()
        sy = rng.choice(core.SYS) if rng.random() < .6 else rng.choice((16, 17, 18, 18, 19, 20, 20, 8, 9))
        r = rng.choice((0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 14))
        if k < .65:
            mask = 2 if sy > 3 else rng.randrange(1, 4)
            h1, h2 = 0xf380 | r, 0x8000 | mask << 10 | sy
        else:
            h1, h2 = 0xf3ef, 0x8000 | r << 8 | sy
        i = arm.decode(h1, h2)
        if i.__class__ is core.Insn and not i.soft: st.one(h1, h2, i, judge, near)
    st.done()
