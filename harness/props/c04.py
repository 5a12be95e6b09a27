"""C04: linear disassembly tiles the byte stream (trace checker over the yielded sequence)."""
import arm
from core import cm, Insn, UNDEF, UNPRED, encodings, fill, TEMPLATES, tobytes, real_decode, hexw
import core


def stream(rng, E, long=False):
    out = bytearray()
    n = rng.choice((0, 1, 2, 3, 5, 8, 13, 30))
    garbage = rng.random() < .5
    if rng.random() < .002:     # a whole section: up to some 20 KB, to its end
        n, garbage = rng.randrange(200, 6000), False
    if long:                    # past 64 KiB
        n, garbage = rng.randrange(26000, 36000), False
    for _ in range(n):
        k = rng.random()
        if garbage and k < .12:
            out += tobytes(rng.getrandbits(16))
        elif garbage and k < .2:
            out += tobytes(0xe800 | rng.randrange(0x1800), rng.getrandbits(16))
        else:
            h1, h2, i = E.pick(rng, soft=True)
            out += tobytes(h1, h2)
    k = rng.random()
    if k < .15: out += bytearray([rng.getrandbits(8)])
    elif k < .4: out += tobytes(0xe800 | rng.randrange(0x1800), rng.getrandbits(16))[:rng.choice((2, 2, 3))]
    elif k < .5: out += tobytes(0xe800 | rng.randrange(0x1800), rng.getrandbits(16))
    elif k < .6: out += tobytes(rng.choice((0xde00, 0xbf50, 0xb100, 0x4701, 0xbfff)))
    return out


def judge(ctx, data, start, got, end, what):
    """got: yielded instructions; end: None, or the exception class name that ended the stream."""
    off = 0
    n = 0
    while True:
        left = len(data) - off
        m = arm.decode_bytes(data, off) if left > 0 else None
        if m.__class__ is not Insn:
            break
        if n >= len(got):
            ctx.violate('missing-instruction', dict(what, at=off, ended=end, delivered=len(got), expected=repr(m)))
            return
        i = got[n]
        if i.address != start + off or i.size != m.size or i.mnemonic != m.mnem or \
                bytes(i.bytes) != bytes(bytearray(data[off:off + m.size])):
            ctx.violate('wrong-instruction', dict(what, at=off, observed=[hex(i.address), i.size, i.mnemonic, bytes(i.bytes)],
                                                  expected=[hex(start + off), m.size, m.mnem]))
            return
        ctx.count('instructions')
        off += m.size
        n += 1
    if len(got) > n:
        ctx.violate('extra-instruction', dict(what, at=off, observed=repr(got[n])))
        return
    if m is None:
        want = (None,)
        ctx.count('ended_complete')
    elif m is UNPRED:
        want = ('UnpredictableError',) if left >= 4 else ('UnpredictableError', None)
        ctx.count('ended_unpredictable')
    elif left < 4:
        want = (None,)
        ctx.count('ended_short_tail')
    else:
        want = ('UndefinedInstructionError',)
        ctx.count('ended_undefined')
    if end not in want:
        ctx.violate('wrong-ending', dict(what, at=off, left=left, observed=end, expected=want))


def drain(gen, got):
    """One step of a stream; returns 'more', None or the exception name."""
    try:
        got.append(next(gen))
        return 'more'
    except StopIteration:
        return None
    except (cm.Undefined, cm.Unpredictable) as e:
        return type(e).__name__


def run(ctx):
    rng = ctx.rng
    E = encodings()
    fmt = cm.Formatter(None)
    shared = cm.Disassembler()
    total = ctx.n(24000, 600000)
    for k in range(total):
        jobs = []
        long = k % 1000 == total % 1000 // 2
        for _ in range(1 if long else rng.choice((1, 1, 1, 2, 3))):
            raw = stream(rng, E, long)
            start = rng.choice((0, 0x1000, 0x1002, 0xfffffff0, 0x08000000, rng.getrandbits(31) << 1,
                                0xffe, rng.getrandbits(20) << 12 | 0xffe, rng.getrandbits(32)))
            data = rng.choice((bytes, bytearray, list))(raw)
            what = {'data': bytes(raw[:40000]).hex(), 'length': len(raw), 'start': hex(start), 'type': type(data).__name__}
            dis = shared if rng.random() < .5 else cm.Disassembler()
            gen = dis.disasm(data, start) if start or rng.random() < .5 else dis.disasm(data)
            jobs.append([raw, start, gen, [], what, 'more'])
        live = list(jobs)
        steps = 0
        while live:
            j = rng.choice(live)
            j[5] = drain(j[2], j[3])
            steps += 1
            if j[5] != 'more':
                live.remove(j)
            if len(j[3]) > len(j[0]) + 4:
                ctx.violate('runaway', j[4])
                live.remove(j)
        if len(jobs) > 1:
            ctx.count('interleaved_streams', len(jobs))
        ctx.count('streams_over_1_KiB', sum(len(j[0]) > 1024 for j in jobs))
        ctx.count('streams_over_64_KiB', sum(len(j[0]) > 65536 for j in jobs))
        for raw, start, gen, got, what, end in jobs:
            ctx.case((bytes(raw), start) if len(got) > 1 else None, what)
            judge(ctx, raw, start, got, end, what)
            if len(raw) < 400: ctx.sample(dict(what, delivered=len(got), ended=end))
            # the same instructions as decoding each position separately
            if not k % 4:
                for i in got:
                    o = i.address - start
                    alone = real_decode(bytes(raw[o:] if len(raw) < 200 else raw[o:o + 6]), i.address)
                    if alone in (UNDEF, UNPRED) or fmt.format(alone) != fmt.format(i):
                        ctx.violate('differs-from-single-decode', dict(what, at=o))
                    ctx.count('compared_to_single_decode')
