"""C03: the listed UNPREDICTABLE encodings are refused as such, their legal neighbours are not."""
import arm
from core import cm, Insn, UNDEF, UNPRED, fill, TEMPLATES, tobytes, real_decode, hexw, SYS


def probe(ctx, h1, h2=None):
    m = arm.decode(h1, h2)
    what = {'encoding': hexw(h1, h2)}
    ctx.case((h1, h2), what)
    addr = ctx.rng.getrandbits(31) << 1
    r = real_decode(tobytes(h1, h2), addr)
    if m is UNPRED:
        ctx.count('unpredictable')
        if r != UNPRED:
            ctx.violate('not-refused', dict(what, observed=repr(r)))
    elif m is UNDEF:
        ctx.count('undefined')
        if r == UNPRED:
            ctx.violate('wrong-refusal', dict(what, observed='unpredictable', expected='undefined'))
    else:
        ctx.count('legal')
        if r in (UNPRED, UNDEF):
            ctx.violate('refused-legal', dict(what, observed=r, expected=repr(m)))
    ctx.sample(dict(what, model=repr(m)))


def lists(rng):
    """Register lists around every boundary of the rules."""
    k = rng.random()
    if k < .1: return 0
    if k < .35: return 1 << rng.randrange(16)
    if k < .6: return 1 << rng.randrange(16) | 1 << rng.randrange(16)
    if k < .7: return 0xc000 | (rng.getrandbits(16) if rng.random() < .5 else 0)
    return rng.getrandbits(16)


def run(ctx):
    rng = ctx.rng
    sh, ns = ctx.shard, ctx.nshards
    # 16-bit families, complete
    for h in list(range(0xb400, 0xb600)) + list(range(0xbc00, 0xbe00)) + list(range(0xc000, 0xd000)) + \
            list(range(0xb600, 0xb700)) + list(range(0xba00, 0xbb00)):
        if h % ns == sh:
            probe(ctx, h)
    # mrs / msr, complete over registers, masks and SYSm
    for k in range(sh, 16 * 256, ns):
        probe(ctx, 0xf3ef, 0x8000 | k)
    for k in range(sh, 16 * 4 * 256, ns):
        probe(ctx, 0xf380 | k >> 10, 0x8000 | ((k >> 8) & 3) << 10 | (k & 0xff))
    # byte reverse, complete over both source fields and destination
    for k in range(sh, 4096, ns):
        for op in (0x80, 0x90, 0xb0, 0xa0):
            probe(ctx, 0xfa90 | k >> 8, 0xf000 | ((k >> 4) & 15) << 8 | op | k & 15)
    # multiply, complete over registers
    for k in range(sh, 4096, ns):
        probe(ctx, 0xfb00 | k >> 8, 0xf000 | (k & 0xf0) << 4 | k & 15)
    # rsb.w and tst.w: all register pairs, sampled immediates
    for k in range(256):
        for s in (0, 1):
            for _ in range(4):
                x = rng.getrandbits(12)
                probe(ctx, 0xf1c0 | s << 4 | (x >> 11) << 10 | k >> 4, ((x >> 8) & 7) << 12 | (k & 15) << 8 | x & 255)
        for _ in range(4):
            x = rng.getrandbits(7)
            probe(ctx, 0xea10 | k >> 4, (x >> 4) << 12 | 0xf00 | (x & 15) << 4 | k & 15)
    # single-register push/pop
    for rt in range(16):
        probe(ctx, 0xf84d, rt << 12 | 0xd04)
        probe(ctx, 0xf85d, rt << 12 | 0xb04)
    # 32-bit block transfers: every base and write-back, lists around the rules
    n = ctx.n(120000, 4000000)
    for k in range(n):
        h1 = rng.choice((0xe880, 0xe890, 0xe8a0, 0xe8b0, 0xe92d, 0xe8bd)) | (rng.getrandbits(4) if rng.random() < .9 else 0)
        if rng.random() < .25: h1 = rng.choice((0xe92d, 0xe8bd))
        h2 = lists(rng)
        if rng.random() < .7: h2 &= ~0x2000
        if rng.random() < .4 and not h1 & 0x10: h2 &= ~0x8000
        if rng.random() < .3: h2 |= 1 << (h1 & 15)
        probe(ctx, h1, h2)
    # one and two-register lists, complete, for every 32-bit block form
    for h1 in list(range(0xe880, 0xe8c0)) + [0xe92d]:
        if h1 % ns != sh:
            continue
        for a in range(16):
            for b in range(a, 16):
                probe(ctx, h1, 1 << a | 1 << b)
        probe(ctx, h1, 0)
    if ctx.thorough:
        for h1 in list(range(0xe880, 0xe8c0)) + [0xe92d]:
            if h1 % ns == sh:
                for h2 in range(0x10000):
                    probe(ctx, h1, h2)
