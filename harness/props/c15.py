"""C15: printed label addresses against where execution really goes (text versus execution, no model)."""
import arm, core
from core import cm, M32, fill, TEMPLATES, encodings, tobytes, real_decode, hexw, parse_line, SparseBackend, HashMem


def address(rng):
    k = rng.random()
    if k < .25: return (rng.randrange(-40, 40) * 2) & M32
    if k < .35: return (0x80000000 + rng.randrange(-40, 40) * 2) & M32
    if k < .7: return rng.getrandbits(32) & ~1
    return rng.getrandbits(14) & ~1


def run(ctx):
    rng = ctx.rng
    cpu = cm.ConfCpu()
    back = SparseBackend(HashMem(1))
    cpu.delegate = back
    fmts = [cm.Formatter(cpu), cm.Formatter(None)]
    enc = encodings()
    halves = [h for h, i in enc.h16.items() if i.__class__ is core.Insn and i.fam in ('b', 'bcond', 'adr')]
    wides = [p for n, p in TEMPLATES if n in ('bl', 'adr.w-', 'adr.w+')]

    def one(h1, h2, addr):
        m = arm.decode(h1, h2)
        if m.__class__ is not core.Insn or m.soft:
            return
        what = {'encoding': hexw(h1, h2), 'address': hex(addr)}
        ctx.case((h1, h2, addr), what)
        i = real_decode(tobytes(h1, h2), addr)
        if i in (arm.UNDEF, arm.UNPRED):
            ctx.count('not_decoded')
            return
        if rng.random() < .2:       # the same object, moved here from another address
            i.address = address(rng)
            if rng.random() < .7: rng.choice(fmts).format(i)
            i.address = addr
            ctx.count('moved')
        text = rng.choice(fmts).format(i)
        try:
            hw, mn, ops, com = parse_line(text)
        except (core.BadText, KeyError, ValueError) as e:
            ctx.violate('text', dict(what, text=text, problem=str(e)))
            return
        disp = [o[1] for o in ops if o[0] == 'disp']
        if len(disp) != 1 or len(com) != 1:
            ctx.violate('no-label', dict(what, text=text))
            return
        flags = rng.getrandbits(4)
        dest = ops[0][1] if m.fam == 'adr' else None
        for f in ([flags] if m.cond in (None, 14) else range(16)):
            back.write_register(16, f << 28 | 0x01000000)
            cpu.pc = addr
            i.execute(cpu)
            if dest is None:
                got = int(cpu.pc)
                if m.fam == 'bcond':
                    s = core.State(None)
                    s.xpsr = f << 28
                    if not arm.cond_holds(m.cond, s):
                        continue            # not taken: nothing to compare
            else:
                got = int(cpu.r[dest])
            ctx.count('compared_' + m.fam)
            if com[0] != got or (addr + disp[0]) & M32 != got:
                ctx.violate('label', dict(what, text=text, flags=f, execution_reached=hex(got)))
                return
        ctx.sample(dict(what, text=text))

    for h in halves[ctx.shard::ctx.nshards]:
        for a in (address(rng), address(rng), 0x1000, 0x1002):
            one(h, None, a)
    for _ in range(ctx.n(120000, 5000000)):
        h1, h2 = fill(rng, rng.choice(wides))
        one(h1, h2, address(rng))
    for _ in range(ctx.n(16000, 800000)):
        one(rng.choice(halves), None, address(rng))
    for k in range(ctx.shard, 0x2000, ctx.nshards):
        one((0xf2af, 0xf20f)[k >> 12] | ((k >> 11) & 1) << 10, ((k >> 8) & 7) << 12 | 0x400 | k & 255, address(rng))
