"""C06: N, Z, C, V after every instruction (oracle: arm.execute), in and out of an IT block."""
import arm, core
from stepping import Stepper, SETTERS


def run(ctx):
    def judge(h1, h2, i, d, o, diffs):
        own = arm.owned_flags(i, d['in_it'])
        ctx.count('flag_setting' if own else 'flag_preserving')
        if i.s == arm.S_NOTIT and d['in_it']:
            ctx.count('suppressed_in_it_block')
        return o.flags

    def tweak(rng, s, i):
        s.in_it = rng.random() < .3
        # make equality, zero and overflow results common
        k = rng.random()
        if i.n is not None and i.m is not None and i.n < 13 and i.m < 13 and i.op != 'ldr' and i.op != 'str':
            if k < .15: s.r[i.m] = s.r[i.n]
            elif k < .25: s.r[i.m] = (-s.r[i.n]) & core.M32
            elif k < .35: s.r[i.m] = s.r[i.n] ^ core.M32
            elif k < .42: s.r[i.m] = (s.r[i.n] + rng.choice((-1, 1, 0x80000000, 0x7fffffff))) & core.M32
        elif i.n is not None and i.imm is not None and i.n < 13 and i.op in SETTERS and k < .4:
            s.r[i.n] = ((i.imm if rng.random() < .5 else -i.imm) + rng.choice((0, 0, 1, -1, 0x80000000))) & core.M32
        if i.fam == 'shift' and i.m is not None and i.m != i.n and rng.random() < .6:
            a = core.shift_amount(rng)
            if a is not None: s.r[i.m] = (s.r[i.m] & ~0xff) | a

    st = Stepper(ctx, lambda i: i.op in SETTERS and i.s != arm.S_NEVER)
    st.run(ctx.n(160000, 8000000), judge, tweak)
    st.done()
    st = Stepper(ctx, lambda i: i.op != 'msr' and not (i.op in SETTERS and i.s != arm.S_NEVER))
    st.run(ctx.n(40000, 1500000), judge, tweak)
    enc = core.encodings()
    for h in range(ctx.shard, 0x10000, ctx.nshards):
        i = enc.h16.get(h)
        if i.__class__ is core.Insn and i.op in SETTERS and not i.soft:
            st.one(h, None, i, judge, tweak, kind='sparse')
