"""C09: the next PC and LR after every instruction (oracle: arm.execute)."""
import arm, core
from core import cm
from stepping import Stepper

BR = ('bcond', 'b', 'bl', 'branch')


def run(ctx):
    def judge(h1, h2, i, d, o, diffs):
        if o.kind: ctx.count('transfers')
        else: ctx.count('fall_through')
        bad = list(o.pc) + list(o.lr)
        if i.fam in BR or i.d == 15:
            bad += [x for x in o.frame if x[0] == 'r14'] + [x for x in o.dest if x[0] == 'r14']
        return bad

    st = Stepper(ctx, lambda i: i.fam in BR or (i.op in ('add', 'mov') and i.d == 15))
    st.run(ctx.n(60000, 3000000), judge)
    # every condition in every flag state, both directions and extreme offsets
    enc = core.encodings()
    for c in range(14):
        for f in range(16):
            for imm in (0, 1, 0x7e, 0x7f, 0x80, 0x81, 0xfe, 0xff, ctx.rng.getrandbits(8)):
                if (c + f + imm) % ctx.nshards == ctx.shard or ctx.thorough:
                    h = 0xd000 | c << 8 | imm

                    def flags(rng, s, i, f=f):
                        s.xpsr = (s.xpsr & 0x0fffffff) | f << 28
                    st.one(h, None, enc.h16[h], judge, flags)
                    ctx.count('condition_cases')
    for h in range(ctx.shard, 0x10000, ctx.nshards):
        i = enc.h16.get(h)
        if i.__class__ is core.Insn and not i.soft:
            st.one(h, None, i, judge, kind='sparse')
    st = Stepper(ctx, lambda i: i.fam == 'branch' or i.d == 15 or i.t == 15 or i.op in ('pop', 'ldm') and i.regs >> 15)
    st.run(ctx.n(24000, 800000), judge)
    st = Stepper(ctx, lambda i: i.fam not in BR)
    st.run(ctx.n(60000, 2000000), judge)
    st.done()
