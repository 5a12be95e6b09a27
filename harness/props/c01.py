"""C01: decoding identifies the architectural instruction (oracle: arm.decode)."""
import arm, core
from core import cm, Insn, UNDEF, UNPRED, encodings, fill, TEMPLATES, tobytes, real_decode, text_problems, hexw


def as_type(rng, data):
    k = rng.randrange(3)
    return bytes(data) if k == 0 else bytearray(data) if k == 1 else list(data)


def outcome(x):
    return x if x in (UNDEF, UNPRED) else 'instruction'


def address(rng):
    return rng.choice((0, 2, 0x1000, 0x1002, 0xfffffffe, 0xfffffffc)) if rng.random() < .3 else rng.getrandbits(32) & ~1


def check(ctx, h1, h2, fmt, full=True, addr=None):
    rng = ctx.rng
    m = arm.decode(h1, h2)
    if m is UNPRED:
        return m, None          # property C03
    if addr is None: addr = address(rng)
    data = as_type(rng, tobytes(h1, h2) + bytearray(rng.getrandbits(8) for _ in range(rng.choice((0, 0, 1, 2, 4, 7)))))
    what = {'encoding': hexw(h1, h2), 'address': hex(addr), 'data': bytes(data).hex()}
    ctx.case(None if m is UNDEF else (h1, h2), what)
    r = real_decode(data, addr)
    if outcome(r) != outcome(m):
        ctx.violate('decode-outcome', dict(what, observed=repr(r), expected=repr(m)))
        return m, None
    if m is UNDEF:
        ctx.count('undefined_rejected')
        return m, None
    bad = []
    if r.mnemonic != m.mnem: bad.append('mnemonic %s, expected %s' % (r.mnemonic, m.mnem))
    if r.size != m.size: bad.append('size %r, expected %r' % (r.size, m.size))
    if bytes(r.bytes) != bytes(tobytes(h1, h2)): bad.append('bytes %r' % bytes(r.bytes).hex())
    if r.address != addr: bad.append('address %r' % r.address)
    if full:
        bad += text_problems(fmt.format(r), m, addr, comments=False)
    if bad:
        ctx.violate('decode-result', dict(what, problems=bad, expected=repr(m)))
    ctx.count('decoded_%d' % (m.size * 8))
    return m, r


def relative(rng, h1, h2):
    """An encoding that differs in a few bits only, or in one halfword or register field."""
    k = rng.random()
    if h2 is None:
        for _ in range(rng.choice((1, 1, 2, 4))): h1 ^= 1 << rng.randrange(16)
        return h1, rng.getrandbits(16) if arm.is32(h1) else None
    if k < .3: h2 ^= 1 << rng.randrange(16)
    elif k < .5: h1 ^= 1 << rng.randrange(11)
    elif k < .65: h2 = h2 & ~0xf00 | rng.getrandbits(4) << 8
    elif k < .8: h2 = h2 & ~0xff | rng.getrandbits(8)
    elif k < .9: h1 = h1 & ~15 | rng.getrandbits(4)
    else: h2 = h2 & 0xfff | rng.getrandbits(4) << 12
    return (h1, h2) if arm.is32(h1) else (h1, None)


def run(ctx):
    rng = ctx.rng
    fmt = cm.Formatter(cm.ConfCpu())
    mnems = set()
    # every halfword that is not a 32-bit prefix, and every truncation
    recent = []
    hs = list(range(ctx.shard, 0x10000, ctx.nshards))
    rng.shuffle(hs)
    for h in hs:
        if arm.is32(h):
            for n in (2, 3):
                data = as_type(rng, tobytes(h, rng.getrandbits(16))[:n])
                ctx.case(('trunc', h, n), {'truncated': bytes(data).hex()})
                if real_decode(data, 0) != UNDEF:
                    ctx.violate('truncation', {'data': bytes(data).hex()})
                ctx.count('truncations')
        else:
            m, r = check(ctx, h, None, fmt)
            if r is not None:
                mnems.add(m.mnem)
    for data in (b'', b'\x00', b'\xff', bytearray(b'\x18'), [7]):
        ctx.case(('short', bytes(data)), {'data': repr(data)})
        if real_decode(data, 4) != UNDEF:
            ctx.violate('truncation', {'data': repr(data)})
    # 32-bit encodings of the subset, their one- and two-bit neighbours, and uniform words
    n = ctx.n(600000, 6000000)
    last = None
    for k in range(n):
        q = rng.random()
        addr = None
        if last is not None and rng.random() < .2:
            # a near relative of the word just decoded, at the same address
            h1, h2, addr = last
            h1, h2 = relative(rng, h1, h2)
            ctx.count('relatives')
        elif q < .70 or q >= .92:
            name, pat = TEMPLATES[k % len(TEMPLATES)]
            h1, h2 = fill(rng, pat)
            if q >= .92:
                for _ in range(rng.choice((1, 1, 2))):
                    b = rng.randrange(27)
                    if b < 16: h2 ^= 1 << b
                    else: h1 ^= 1 << (b - 16)
        else:
            h1, h2 = 0xe800 | rng.randrange(0x1800), rng.getrandbits(16)
        if not arm.is32(h1):
            h2 = None
        if addr is None: addr = address(rng)
        last = h1, h2, addr
        m, r = check(ctx, h1, h2, fmt, True, addr)
        if r is not None:
            mnems.add(m.mnem)
            if h2 is not None and k % 5 == 0:
                recent.append((h1, h2, r.mnemonic, r))
                ctx.sample({'encoding': hexw(h1, h2), 'text': fmt.format(r)})
        if len(recent) > 300:
            # decoding is a function of the bytes: what was decoded in between must not matter
            rng.shuffle(recent)
            for a, b, mn, obj in recent:
                again = real_decode(tobytes(a, b), obj.address)
                t1, t2 = fmt.format(again), fmt.format(obj)
                ctx.case(None, {'encoding': hexw(a, b), 're-decode': True})
                ctx.count('redecoded')
                if again.mnemonic != mn or t1 != t2:
                    ctx.violate('history', {'encoding': hexw(a, b), 'first': t2, 'again': t1})
            recent = []
    # after very many decodes of one encoding, it and everything near it still decodes the same
    for k in range(ctx.n(64, 2000)):
        if rng.random() < .5: h1, h2 = fill(rng, rng.choice(TEMPLATES)[1])
        else: h1, h2 = rng.choice(hs), None
        if not arm.is32(h1): h2 = None
        elif h2 is None: h2 = rng.getrandbits(16)
        addr = address(rng)
        data = bytes(tobytes(h1, h2))
        for _ in range(rng.choice((300, 3000, 3000, 12000))): real_decode(data, addr)
        ctx.count('hot_encodings')
        check(ctx, h1, h2, fmt)
        for _ in range(400): check(ctx, *(relative(rng, h1, h2) + (fmt,)))
    rng.shuffle(hs)
    for h in hs:
        if not arm.is32(h):
            check(ctx, h, None, fmt)
            ctx.count('swept_again')
    ctx.count('mnemonics_seen_by_shards', len(mnems))
    if ctx.thorough:
        exhaustive(ctx)


def exhaustive(ctx):
    """Every 32-bit word: outcome and mnemonic; text for a sample."""
    rng = ctx.rng
    fmt = cm.Formatter(cm.ConfCpu())
    dec, U, P = cm.decoder.decode, cm.Undefined, cm.Unpredictable
    h1s = list(range(0xe800 + ctx.shard, 0x10000, ctx.nshards))
    rng.shuffle(h1s)
    for h1 in h1s:
        d = arm.dec32
        for h2 in range(0x10000):
            m = d(h1, h2)
            try:
                r = dec((h1 & 0xff, h1 >> 8, h2 & 0xff, h2 >> 8), 0)
            except U:
                r = UNDEF
            except P:
                r = UNPRED
            if r is m or m is UNPRED:
                continue
            if r in (UNDEF, UNPRED) or m is UNDEF or r.mnemonic != m.mnem or r.size != 4:
                ctx.case(None, {'encoding': hexw(h1, h2)})
                ctx.violate('decode-exhaustive', {'encoding': hexw(h1, h2), 'observed': repr(r), 'expected': repr(m)})
            elif not rng.getrandbits(7):
                m.size, m.word = 4, h1 | h2 << 16
                bad = text_problems(fmt.format(r), m, 0, comments=False)
                if bad:
                    ctx.violate('decode-result', {'encoding': hexw(h1, h2), 'problems': bad})
        ctx.case(('h1', h1), {'first halfword': hex(h1)})
        ctx.evaluations += 0x10000 - 1
        ctx.count('first_halfwords_swept_exhaustively')
        if core_time() > ctx.deadline:
            ctx.stopped = True
            return


from time import time as core_time
