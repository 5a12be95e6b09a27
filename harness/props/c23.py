"""C23: histories of register reads and writes through every access path against a model register file."""
import contextlib, io, logging, re
import core
from core import cm, M32

NAMES = dict([('r%d' % k, k) for k in range(16)] + [('sp', 13), ('lr', 14), ('pc', 15), ('xpsr', 16), ('msp', 17),
             ('psp', 18), ('control', -4), ('faultmask', -3), ('basepri', -2), ('primask', -1), ('fpscr', 33)] +
             [('s%d' % k, 0x40 + k) for k in range(32)])
PROPS = {'pc': 15, 'lr': 14, 'sp': 13, 'msp': 17, 'psp': 18, 'xpsr': 16}
ALL = sorted(set(NAMES.values()))
BY = {}
for _n, _k in NAMES.items(): BY.setdefault(_k, []).append(_n)
BITS = {'n': 31, 'z': 30, 'c': 29, 'v': 28}


class File(object):
    def __init__(self):
        self.r = dict((k, 0) for k in ALL)
        self.r[16] = 0x01000000

    def put(self, k, v):
        v &= M32
        if k in (-1, -3): v &= 1
        elif k == -2: v &= 0xff
        elif k in (13, 17, 18): v &= ~3
        self.r[k] = v
        bank = 18 if self.r[-4] & 2 else 17
        if k == 13: self.r[bank] = v
        else: self.r[13] = self.r[bank]


def case_of(rng, n):
    k = rng.random()
    if k < .5: return n
    if k < .75: return n.upper()
    return ''.join(c.upper() if rng.random() < .5 else c for c in n)


def run(ctx):
    rng, bs = ctx.rng, cm.bitstring
    logging.disable(logging.CRITICAL)       # an unknown register name is logged

    for h in range(ctx.n(24000, 400000)):
        cpu = cm.ConfCpu()
        cpu.delegate = mock = cm.Mock()
        f = File()
        log = []

        def check(how, got, want, width=32):
            if not isinstance(got, bs) or got.width != width or got.unsigned != want:
                ctx.violate('read', {'history': log[-25:], 'through': how, 'got': repr(got), 'want': hex(want)})

        def paths(k):
            """Every way to read register k."""
            out = [('read_register(%d)' % k, lambda: cpu.read_register(k))]
            for n in BY[k]:
                out.append(('read_register(%r)' % n, lambda n=n: cpu.read_register(case_of(rng, n))))
            if 0 <= k < 16: out.append(('r[%d]' % k, lambda: cpu.r[k]))
            if k >= 0x40: out.append(('s[%d]' % (k - 0x40), lambda: cpu.s[k - 0x40]))
            for n, kk in PROPS.items():
                if kk == k: out.append(('.' + n, lambda n=n: getattr(cpu, n)))
            if k == -4: out.append(('.control', lambda: cpu.control))
            return out

        for step in range(rng.randrange(6, 50) if rng.random() < .9985 else 4000):
            k = rng.random()
            if k < .12: reg = 13
            elif k < .2: reg = rng.choice((17, 18))
            elif k < .3: reg = -4
            elif k < .4: reg = 16
            elif k < .5: reg = rng.choice((-1, -2, -3, 14, 15, 33))
            else: reg = rng.choice(ALL)
            op = rng.random()
            if op < .42:
                v = core.value(rng)
                if reg == -4 and rng.random() < .9: v = rng.randrange(8)
                arg = v
                k = rng.random()
                if k < .4: arg = bs(v, 32)
                elif k < .5 and v.bit_length() < 32: arg = bs(v, rng.randrange(max(v.bit_length(), 1), 32))
                elif k < .6: arg = v - (1 << 32) if rng.random() < .7 else v | rng.getrandbits(8) << 32
                ways = ['index', 'name']
                if 0 <= reg < 16: ways.append('r')
                if reg >= 0x40: ways += ['s', 's']
                ways += ['prop'] * 3 * (reg in PROPS.values())
                w = rng.choice(ways)
                n = case_of(rng, rng.choice(BY[reg]))
                log.append('%s %s/%d = %#x' % (w, n, reg, v))
                ctx.case(('w', w, n, v & 0xff, f.r[-4] & 2), log[-25:])
                if w == 'index': cpu.write_register(reg, arg)
                elif w == 'name': cpu.write_register(n, arg)
                elif w == 'r': cpu.r[reg] = arg
                elif w == 's': cpu.s[reg - 0x40] = arg
                else: setattr(cpu, rng.choice([p for p in PROPS if PROPS[p] == reg]), arg)
                f.put(reg, v)
                ctx.count('writes_' + w)
                if isinstance(arg, bs):
                    if arg.unsigned != v or arg.width > 32:
                        ctx.violate('argument', {'history': log[-25:]})
                    arg.invert()            # the caller may reuse its object
            elif op < .52:
                b = rng.choice('nzcv')
                v = rng.getrandbits(1)
                log.append('apsr.%s = %d' % (b, v))
                ctx.case(('flag', b, v, f.r[16] >> 28), log[-25:])
                setattr(cpu.apsr, b, rng.choice((v, bs(v, 1), str(v), bool(v))))
                f.put(16, f.r[16] & ~(1 << BITS[b]) | v << BITS[b])
                ctx.count('flag_writes')
            elif op < .85:
                how, read = rng.choice(paths(reg))
                log.append(how)
                ctx.case(('r', how, f.r[reg] & 0xff), log[-25:])
                got = read()
                check(how, got, f.r[reg])
                if rng.random() < .3:
                    got.invert()            # what a read returns is the caller's own
                ctx.count('reads')
            elif op < .87:
                n = rng.choice(('r16', 's32', 'r-1', 'bogus', '', 'msp ', 'apsr_', 'r00', 'x0', 'controls'))
                log.append('unknown name %r' % n)
                ctx.case(('unknown', n), log[-25:])
                try:
                    if rng.random() < .5: cpu.read_register(n)
                    else: cpu.write_register(n, rng.choice((1, bs(0xffffffff, 32))))
                except (KeyError, ValueError, TypeError): pass
                for k in ALL: check('read_register(%d)' % k, cpu.read_register(k), f.r[k])
                ctx.count('unknown_names')
            elif op < .9:
                bad = rng.choice((lambda: cpu.r[16], lambda: cpu.r[-1], lambda: cpu.s[32], lambda: cpu.s[-1],
                                  lambda: cpu.r[100], lambda: cpu.s[-64], lambda: cpu.r[-16],
                                  lambda: cpu.r.__setitem__(16, 1), lambda: cpu.r.__setitem__(-3, 1),
                                  lambda: cpu.s.__setitem__(32, 1), lambda: cpu.s.__setitem__(-1, 1)))
                log.append('out of range index')
                ctx.case(('bad', step & 7), log[-25:])
                try:
                    got = bad()
                except (KeyError, IndexError, ValueError):
                    ctx.count('rejected')
                else:
                    ctx.violate('out-of-range', {'history': log[-25:], 'got': repr(got)})
            elif op < .97:
                x = f.r[16]
                log.append('flags')
                ctx.case(('flags', x >> 28, x & 0x1ff), log[-25:])
                for b in 'nzcv':
                    check('apsr.' + b, getattr(cpu.apsr, b), (x >> BITS[b]) & 1, 1)
                check('ipsr', cpu.ipsr, x & 0x1ff, cpu.ipsr.width)
                handler = rng.random() < .3
                cpu.mode = cm.CpuMode.Handler if handler else cm.CpuMode.Thread
                if bool(cpu.is_privileged) != (handler or not f.r[-4] & 1):
                    ctx.violate('privilege', {'history': log[-25:], 'control': f.r[-4], 'handler': handler})
                check('pc_for_instr', cpu.pc_for_instr, (f.r[15] + 4) & M32)
                ctx.count('flag_reads')
            else:
                out = io.StringIO()
                with contextlib.redirect_stdout(out):
                    cpu.dump()
                got = dict(re.findall(r'(\w+) *=([0-9a-f]{8})', out.getvalue()))
                want = dict(('r%d' % k, '%08x' % f.r[k]) for k in range(13))
                want.update(sp='%08x' % f.r[13], lr='%08x' % f.r[14], pc='%08x' % f.r[15])
                if got != want:
                    ctx.violate('dump', {'history': log[-25:], 'got': got, 'want': want})
                ctx.count('dumps')
            if step % 4 == 0:
                for k in ALL:
                    check('read_register(%d)' % k, cpu.read_register(k), f.r[k])
                ctx.count('full_checks')
        for k in ALL:
            for how, read in paths(k): check(how, read(), f.r[k])
            if mock.read_register(k) != f.r[k]:
                ctx.violate('delegate', {'history': log[-25:], 'register': k})
        ctx.count('histories')
        if h < 2: ctx.sample({'history': log[:8]})
