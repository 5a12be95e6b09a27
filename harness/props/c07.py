"""C07: single loads and stores (oracle: arm.execute over a byte-addressed shadow memory)."""
import core
from stepping import Stepper

FAMS = ('ldstimm', 'ldstreg', 'ldrlit')


def run(ctx):
    def judge(h1, h2, i, d, o, diffs):
        load = i.op != 'str'
        ctx.count('loads' if load else 'stores')
        if i.t == 15: ctx.count('loads_to_pc')
        if i.t == i.n or i.t == i.m: ctx.count('destination_is_base_or_index')
        bad = list(o.dest) + list(o.mem[:8])
        if i.t == 15: bad += o.pc
        keep = ['r%d' % k for k in (i.n, i.m) if k is not None and not (load and k == i.t)]
        bad += [x for x in o.frame if x[0] in keep]
        return bad

    st = Stepper(ctx, lambda i: i.fam in FAMS)
    st.run(ctx.n(130000, 6000000), judge)
    st.done()
    enc = core.encodings()
    for h in range(ctx.shard, 0x10000, ctx.nshards):
        i = enc.h16.get(h)
        if i.__class__ is core.Insn and i.fam in FAMS and not i.soft:
            st.one(h, None, i, judge, kind='sparse')
