"""C24: data conversion utilities against struct and plain arithmetic."""
import math, struct
import bits as B
from core import cm


def run(ctx):
    rng, u = ctx.rng, cm.utilities

    def eq(call, got, want):
        if got != want:
            ctx.violate(call.split('(')[0], {'call': call, 'got': repr(got)[:200], 'want': repr(want)[:200]})

    def container(rng, l):
        return rng.choice((list, bytearray, bytes, tuple))(l)

    # every halfword, alone and in both halves of a word
    for h in range(ctx.shard, 0x10000, ctx.nshards):
        ctx.case(('half', h), {'halfword': h})
        by = [h & 255, h >> 8]
        eq('le16_to_bytes(%#x)' % h, list(u.le16_to_bytes(h)), by)
        eq('bytes_to_le16(%r)' % by, u.bytes_to_le16(by), h)
        eq('u16leListToByteList([%#x])' % h, list(u.u16leListToByteList([h])), by)
        eq('byteListToU16leList(%r)' % by, list(u.byteListToU16leList(by)), [h])
        g = (h * 40503 + 12345) & 0xffff
        for w in (h << 16 | g, g << 16 | h):
            by = [(w >> k) & 255 for k in (0, 8, 16, 24)]
            eq('le32_to_bytes(%#x)' % w, list(u.le32_to_bytes(w)), by)
            eq('bytes_to_le32(%r)' % by, u.bytes_to_le32(by), w)
            eq('u32leListToByteList([%#x])' % w, list(u.u32leListToByteList([w])), by)
            eq('byteListToU32leList(%r)' % by, list(u.byteListToU32leList(by)), [w])
        ctx.count('halfwords')

    for _ in range(ctx.n(60000, 1500000)):
        n = rng.choice((0, 1, 2, 3, 4, 5, 8, rng.randrange(30))) if rng.random() < .998 else rng.randrange(200, 3000)
        words = [B.value(rng, 32) for _ in range(n)]
        halves = [B.value(rng, 16) for _ in range(n)]
        ctx.case(('words', tuple(words)), {'words': words, 'halves': halves})
        by = u.u32leListToByteList(words)
        eq('u32leListToByteList(%r)' % words, list(by), list(struct.pack('<%dI' % n, *words)))
        eq('byteListToU32leList(%d bytes)' % len(by), list(u.byteListToU32leList(container(rng, list(by)))), words)
        extra = rng.randrange(4)
        eq('byteListToU32leList(%d bytes + %d)' % (len(by), extra),
           list(u.byteListToU32leList(list(by) + [rng.getrandbits(8)] * extra)), words)
        by = u.u16leListToByteList(halves)
        eq('u16leListToByteList(%r)' % halves, list(by), list(struct.pack('<%dH' % n, *halves)))
        eq('byteListToU16leList(%d bytes)' % len(by), list(u.byteListToU16leList(container(rng, list(by)))), halves)
        ctx.count('lists')

        w = B.value(rng, 32)
        h = w & 0xffff
        off = rng.randrange(6)
        ctx.case(('le', w, off), {'word': w, 'offset': off})
        eq('le32_to_bytes(%#x)' % w, bytes(u.le32_to_bytes(w)), struct.pack('<I', w))
        eq('le16_to_bytes(%#x)' % h, bytes(u.le16_to_bytes(h)), struct.pack('<H', h))
        pad = [rng.getrandbits(8) for _ in range(off)]
        tail = [rng.getrandbits(8) for _ in range(rng.randrange(4))]
        d = container(rng, pad + list(struct.pack('<I', w)) + tail)
        eq('bytes_to_le32(%r, %d)' % (d, off), u.bytes_to_le32(d, off), w)
        eq('bytes_to_le16(%r, %d)' % (d, off), u.bytes_to_le16(d, off), h)
        eq('bytes_to_le16(%r, %d)' % (d, off + 2), u.bytes_to_le16(d, off + 2), w >> 16)
        if not off:
            eq('bytes_to_le32(%r)' % (d,), u.bytes_to_le32(d), w)
            eq('bytes_to_le16(%r)' % (d,), u.bytes_to_le16(d), h)
        eq('invert32(%#x)' % w, u.invert32(w), w ^ 0xffffffff)
        wide = rng.choice((-w, ~w, w | w << 32, -1, 1 << 32, rng.getrandbits(70)))
        eq('invert32(%#x)' % wide, u.invert32(wide), ~wide & 0xffffffff)
        eq('invert32 twice', u.invert32(u.invert32(w)), w)
        big = B.value(rng, B.width(rng))
        eq('hamming_weight(%#x)' % big, u.hamming_weight(big), bin(big).count('1'))
        eq('wmask', u.wmask(off * 13), (1 << off * 13) - 1)
        ctx.count('scalars')

        # IEEE-754 words, including infinities, zeros, denormals; NaNs keep being NaN
        f = rng.choice((w, w, 0, 0x80000000, 0x7f800000, 0xff800000, 1, 0x807fffff, 0x00800000, 0x7f7fffff, 0x3f800000))
        x = u.u32BEToFloat32BE(f)
        ctx.case(('float', f), {'float bits': hex(f)})
        if (f >> 23) & 255 == 255 and f & 0x7fffff:
            if not math.isnan(x): eq('u32BEToFloat32BE(%#x)' % f, x, 'nan')
        else:
            s, e, m = f >> 31, (f >> 23) & 255, f & 0x7fffff
            want = float('inf') if e == 255 else math.ldexp(m + (0x800000 if e else 0), max(e, 1) - 150)
            eq('u32BEToFloat32BE(%#x)' % f, x, -want if s else want)
            eq('float32beToU32be(%r)' % x, u.float32beToU32be(x), f)
        ctx.count('floats')

        # masks and fields
        lsb = rng.choice((0, 0, rng.randrange(40)))
        msb = lsb + rng.choice((0, 1, 7, rng.randrange(40)))
        v, fld = B.value(rng, 64), B.value(rng, rng.randrange(1, 66))
        wd = msb - lsb + 1
        ctx.case(('field', v, fld, msb, lsb), {'value': v, 'field': fld, 'msb': msb, 'lsb': lsb})
        eq('bfx(%#x, %d, %d)' % (v, msb, lsb), u.bfx(v, msb, lsb), (v >> lsb) & ((1 << wd) - 1))
        keep = sum(((v >> i) & 1) << i for i in range(66) if not lsb <= i <= msb)
        eq('bfi(%#x, %#x, %d, %d)' % (v, fld, msb, lsb), u.bfi(v, fld, msb, lsb), keep | (fld & ((1 << wd) - 1)) << lsb)
        eq('bfx(bfi)', u.bfx(u.bfi(v, fld, msb, lsb), msb, lsb), fld & ((1 << wd) - 1))
        eq('bfx(%#x, %d)' % (v, msb), u.bfx(v, msb), (v >> msb) & 1)
        eq('bfi(%#x, %#x, %d)' % (v, fld, msb), u.bfi(v, fld, msb), v & ~(1 << msb) | (fld & 1) << msb)
        args, want = [], 0
        for _k in range(rng.randrange(5)):
            k = rng.randrange(3)
            if k == 0:
                a = rng.randrange(40)
                b = rng.randrange(a + 1)
                args.append((a, b))
                for i in range(b, a + 1): want |= 1 << i
            elif k == 1:
                l = [rng.randrange(40) for _ in range(rng.randrange(4))]
                args.append(l)
                for i in l: want |= 1 << i
            else:
                i = rng.randrange(40)
                args.append(i)
                want |= 1 << i
        eq('bitmask%r' % (tuple(args),), u.bitmask(*args), want)
        ctx.count('fields')
        ctx.sample({'bfi': [v, fld, msb, lsb], 'bitmask': repr(args)})
