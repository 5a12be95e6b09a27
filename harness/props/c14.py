"""C14: the formatted line denotes the encoded instruction (oracle: arm.decode plus a text parser)."""
import arm, core
from core import cm, Insn, UNDEF, UNPRED, encodings, fill, TEMPLATES, tobytes, real_decode, text_problems, hexw


def sem(i):
    """What distinguishes the effects of two instructions."""
    return (i.op, i.d, i.n, i.m, i.t, i.imm, i.s, i.st, i.sn, i.regs, i.wback, i.cond, i.msize, i.signed, repr(i.x),
            i.size if i.op == 'bl' or i.op == 'blx' else 0)


def run(ctx):
    rng = ctx.rng
    fmts = [cm.Formatter(cm.ConfCpu()), cm.Formatter(cm.ConfCpu()), cm.Formatter(None)]
    seen = {}
    pend = []

    def one(h1, h2):
        m = arm.decode(h1, h2)
        if m.__class__ is not Insn:
            return
        addr = core.even_pc(rng)
        r = real_decode(tobytes(h1, h2), addr)
        what = {'encoding': hexw(h1, h2), 'address': hex(addr)}
        ctx.case((h1, h2), what)
        if r in (UNDEF, UNPRED):
            ctx.count('not_decoded')
            return
        pend.append((r, m, addr, what))
        if len(pend) >= 8:
            flush()

    def flush():
        # several live instructions, formatted in random order by several formatters, some twice
        jobs = pend + [rng.choice(pend) for _ in range(2)]
        rng.shuffle(jobs)
        for r, m, addr, what in jobs:
            text = rng.choice(fmts).format(r)
            bad = text_problems(text, m, addr)
            ctx.count('texts')
            ctx.count('op_' + (m.ops[-1][0] if m.ops else 'none'))
            if bad:
                ctx.violate('text', dict(what, text=text, problems=bad))
            if m.size == 2:
                hw, mn, ops, com = core.parse_line(text)
                key = (mn, repr(ops))
                old = seen.setdefault(key, (sem(m), what))
                if old[0] != sem(m) and m.fam not in ('adr', 'hint', 'exc', 'bcond', 'b'):
                    ctx.violate('ambiguous-text', dict(what, text=text, other=old[1]))
            ctx.sample({'encoding': what['encoding'], 'address': what['address'], 'text': text})
        del pend[:]

    hs = [h for h in range(0x10000) if not arm.is32(h)]
    mine = hs[ctx.shard::ctx.nshards]
    rng.shuffle(mine)
    for h in mine:
        one(h, None)
    for k in range(ctx.n(400000, 6000000)):
        one(*fill(rng, TEMPLATES[k % len(TEMPLATES)][1]))
    # the operand spaces that matter for text, completely
    for k in range(ctx.shard, 0x10000, ctx.nshards):
        one(0xe92d, k & 0x5fff)
        one(0xe8bd, k & 0xdfff)
    for k in range(ctx.shard, 16 * 256 * 4, ctx.nshards):
        one(0xf380 | k >> 10, 0x8000 | ((k >> 8) & 3) << 10 | (k & 255))
        one(0xf3ef, 0x8000 | (k & 0xfff))
    for k in range(ctx.shard, 0x1000, ctx.nshards):
        one(0xf04f | (k >> 11) << 10, ((k >> 8) & 7) << 12 | 0x300 | k & 255)
        one(0xf85f | (rng.getrandbits(1) << 7), 0x3000 | k)
        one(0xf2af | (k >> 11) << 10, ((k >> 8) & 7) << 12 | 0x300 | k & 255)
        one(0xea6f | rng.getrandbits(1) << 4, (k << 3) & 0x7000 | 0x300 | (k << 4) & 0xf0 | 5)
    for k in range(48):
        one(0xf3bf, 0x8f40 + k)
    if pend:
        flush()
    # register lists on their own: every set of registers, also those no encoding can hold
    f = fmts[0]
    for v in range(ctx.shard, 0x10000, ctx.nshards):
        text = cm.formatter.ReglistOperand(cm.bitstring(v, 16)).format(f)
        ctx.case(('list', v), {'register list': hex(v)})
        try:
            got = ('list', 0) if text.replace(' ', '') == '{}' else core.parse_op(text)
        except (core.BadText, KeyError, ValueError):
            got = None
        if got != ('list', v):
            ctx.violate('register-list', {'list': hex(v), 'text': text})
        ctx.count('register_lists')
