"""C02: only the two documented rejections ever leave decode; format and execute never raise."""
import traceback
import arm, core
from core import cm, encodings, fill, TEMPLATES, tobytes, hexw, Machine, random_state, describe, State, value, HashMem
from core import UNDEF, UNPRED, real_decode


def attempt(ctx, what, detail, f, *a):
    try:
        return f(*a)
    except (core.Stop, MemoryError):
        raise
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        ctx.violate('exception', dict(detail, during=what, exception='%s: %s' % (type(e).__name__, e),
                                      where=['%s:%d' % (t.filename.split('/')[-1], t.lineno) for t in tb[-3:]]))
        return None


def one(ctx, data, machines, fmts, execs=2):
    rng = ctx.rng
    addr = core.even_pc(rng)
    if rng.random() < .06: addr = rng.choice((addr | 1, 0xffffffff, 0xfffffffe, 1, 0))
    what = {'data': bytes(data).hex(), 'address': hex(addr)}
    i = attempt(ctx, 'decode', what, real_decode, data, addr)
    if i is None:
        return
    if i in (UNDEF, UNPRED):
        ctx.case(None, what)
        ctx.count('rejected_' + i)
        return
    ctx.count('decoded')
    ctx.case(('d', bytes(i.bytes)), what)
    attempt(ctx, 'format', what, rng.choice(fmts).format, i)
    attempt(ctx, 'repr', what, repr, i)
    for _ in range(execs):
        m = rng.choice(machines)
        s = random_state(rng, m.mem0, None)
        if rng.random() < .5:
            mi = arm.decode_bytes(data)
            if mi.__class__ is arm.Insn and getattr(m.mem0, 'regs', True):
                core.aim(rng, s, mi)
                s.r[13] = s.psp if s.control & 2 else s.msp
        if rng.random() < .1:
            s.r[15] |= 1
        m.load_state(s)
        d = dict(what, state=describe(0, None, s), machine=m.kind)
        ctx.case(('x', bytes(i.bytes), s.r[15], s.xpsr >> 28), d)
        attempt(ctx, 'execute', d, i.execute, m.cpu)
        ctx.count('executed')
    if not rng.getrandbits(5):
        attempt(ctx, 'repr(cpu)', what, repr, m.cpu)


def run(ctx):
    rng = ctx.rng
    machines = [Machine('mock', rng), Machine('sparse', rng), Machine('mock', rng, layout=[])]
    fmts = [cm.Formatter(m.cpu) for m in machines] + [cm.Formatter(None)]
    mn = set()
    hs = list(range(ctx.shard, 0x10000, ctx.nshards))
    rng.shuffle(hs)
    for h in hs:
        if not arm.is32(h):
            one(ctx, tobytes(h, rng.getrandbits(16) if rng.random() < .5 else None), machines, fmts, 1)
    for k in range(ctx.n(80000, 3000000)):
        if k % 2000 == 0:
            machines[0], machines[1] = Machine('mock', rng), Machine('sparse', rng)
        h1, h2 = fill(rng, TEMPLATES[k % len(TEMPLATES)][1])
        if rng.random() < .15:
            b = rng.randrange(32)
            if b < 16: h2 ^= 1 << b
            else: h1 ^= 1 << (b - 16)
        data = tobytes(h1, h2)
        one(ctx, data, machines, fmts, 1)
        i = arm.decode(h1, h2)
        if i.__class__ is arm.Insn: mn.add(i.mnem)
    for k in range(ctx.n(40000, 1000000)):
        data = bytearray(rng.getrandbits(8) for _ in range(rng.choice((0, 1, 2, 3, 4, 4, 5, 8))))
        if len(data) >= 4 and rng.random() < .5:
            data[1] = 0xe8 | rng.getrandbits(8)
        one(ctx, rng.choice((bytes, bytearray, list))(data), machines, fmts, 1)
    # whole streams through the disassembler
    for k in range(ctx.n(4000, 60000)):
        data = bytes(rng.getrandbits(8) for _ in range(rng.randrange(40)))
        what = {'stream': data.hex()}
        ctx.case(('s', data), what)

        def stream():
            try:
                for i in cm.Disassembler().disasm(data, rng.getrandbits(32) & ~1):
                    rng.choice(fmts).format(i)
            except (cm.Undefined, cm.Unpredictable):
                pass
        attempt(ctx, 'disasm', what, stream)
        ctx.count('streams')
    ctx.count('mnemonics32_seen_by_shards', len(mn))
