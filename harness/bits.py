"""Generators shared by the bit-string checks; the oracle side uses only plain integers and lists of bits."""

WIDTHS = (1, 2, 3, 4, 5, 7, 8, 9, 12, 15, 16, 17, 24, 31, 32, 33, 48, 63, 64, 65, 100, 128, 130)


def width(rng, low=1, top=None):
    k = rng.random()
    w = rng.choice(WIDTHS) if k < .6 else rng.randrange(1, 41) if k < .9 else rng.randrange(1, 200)
    if k > .996:        # far past any machine word
        w = rng.choice((255, 256, 257, 511, 512, 513, 1000, 1024, 1025, rng.randrange(200, 1100)))
    w = max(w, low)
    return min(w, top) if top else w


def value(rng, w):
    m = (1 << w) - 1
    k = rng.random()
    if k < .08: return 0
    if k < .16: return m
    if k < .22: return 1 << (w - 1)
    if k < .28: return m >> 1
    if k < .34: return 1
    if k < .42: return 1 << rng.randrange(w)
    if k < .50: return m ^ (1 << rng.randrange(w))
    return rng.getrandbits(w)


def integer(rng):
    k = rng.random()
    if k < .3: return rng.randrange(-3, 20)
    if k < .5: return rng.choice((0xffffffff, 0x100000000, 0x100000001, 0xfffffffe, 0x80000000, 0x7fffffff, 1 << 63,
                                  (1 << 64) - 1, 1 << 64, (1 << 64) + 5, -0x80000000, -0x80000001, -1, -2, -(1 << 32),
                                  -(1 << 40) - 7))
    if k < .7: return rng.getrandbits(32)
    if k < .8: return -rng.getrandbits(rng.randrange(1, 70))
    if k > .99: return rng.choice((1, -1)) * rng.getrandbits(rng.randrange(100, 1200))
    return rng.getrandbits(rng.randrange(1, 100))


def text(v, w):
    s = ''
    for i in range(w):
        s = ('1' if (v >> i) & 1 else '0') + s
    return s


def bits(v, w):
    """Bit 0 first."""
    return [(v >> i) & 1 for i in range(w)]


def num(bl):
    v = 0
    for i, b in enumerate(bl):
        v |= b << i
    return v


def signed(v, w):
    return v - (1 << w) if v >> (w - 1) else v


def same(x, v, w):
    """The bit string x denotes value v at width w, through every reading of the value."""
    return (x.width == w and len(x) == w and x.unsigned == v and x.value == v and int(x) == v and
            x.mask == (1 << w) - 1 and x.binary_string == text(v, w))


def show(x):
    try:
        return "width=%r value=%#x" % (x.width, x.unsigned)
    except Exception:
        return repr(x)[:80]
