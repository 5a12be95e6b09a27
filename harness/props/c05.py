"""C05: data-processing results (oracle: arm.execute, destination register and stack-pointer alignment)."""
import core
from stepping import Stepper, DP


def run(ctx):
    st = Stepper(ctx, lambda i: i.op in DP)

    def judge(h1, h2, i, d, o, diffs):
        bad = list(o.dest)
        if i.d == 15:
            bad += o.pc
        if o.after[0][13] & 3 or o.after[1]['msp'] & 3 or o.after[1]['psp'] & 3:
            bad.append(('sp-alignment', o.after[0][13]))
        if i.d in (13, 15): ctx.count('sp_or_pc_destination')
        if i.n is not None and (i.n == i.m or i.n == i.d): ctx.count('coinciding_registers')
        return bad

    st.run(ctx.n(160000, 8000000), judge)
    # every 16-bit data-processing halfword at least once
    enc = core.encodings()
    for h in range(ctx.shard, 0x10000, ctx.nshards):
        i = enc.h16.get(h)
        if i.__class__ is core.Insn and i.op in DP and not i.soft:
            st.one(h, None, i, judge, kind='sparse')
    st.done()
