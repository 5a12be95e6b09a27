"""C25: register and memory commands of console sessions against a model of the machine."""
import re
import core, console
from core import cm, M32
from console import fresh, random_binary, dump_problem, parse_regs, RAM
from props.c23 import NAMES, case_of

CMDS = {8: ('read', 'read8', 'r', 'rb'), 16: ('read16', 'r16', 'rh'), 32: ('read32', 'r32', 'rw')}
WCMDS = {8: ('write', 'write8', 'w', 'wb'), 16: ('write16', 'w16', 'wh'), 32: ('write32', 'w32', 'ww')}


def number(rng, v):
    k = rng.random()
    if k < .3: s = '%d' % v
    elif k < .6: s = '0x%x' % v
    elif k < .7: s = '0X%X' % v
    elif k < .8: s = '0b' + bin(v)[2:]
    elif k < .9: s = '0o%o' % v
    else: s = '0x%08x' % v
    if rng.random() < .1 and len(s) > 4: s = s[:-2] + '_' + s[-2:]
    return s


def spelled(rng, m, v, regs=True):
    """Some way of writing the value v: a number, a register holding it, or memory holding it."""
    if regs and rng.random() < .4:
        names = [n for n, k in NAMES.items() if m.f.r[k] == v]
        if names and rng.random() < .6: return case_of(rng, rng.choice(names))
        word = bytearray((v >> (8 * k)) & 255 for k in range(4))
        places = []
        for s, b in m.mem.regs:
            p = bytes(b[:0x2000]).find(bytes(word), rng.choice((0, rng.randrange(0x400))))
            if p >= 0: places.append(s + p)
        if places:
            a = rng.choice(places)
            k = rng.random()
            if k < .5: return '[%s]' % number(rng, a)
            near = [n for n, kk in NAMES.items() if abs(m.f.r[kk] - a) < 0x3000]
            if near:
                n = rng.choice(near)
                off = a - m.f.r[NAMES[n]]
                if off == 0 and rng.random() < .5: return '[%s]' % case_of(rng, n)
                return '[%s,%s%s]' % (case_of(rng, n), '-' if off < 0 else rng.choice(('', '', '+')), number(rng, abs(off)))
            d = rng.randrange(min(a + 1, 100))
            return '[%s,%s]' % (number(rng, a - d), number(rng, d))
    return number(rng, v)


def address(rng, m, n):
    s, b = rng.choice(m.mem.regs)
    k = rng.random()
    if k < .8: a = s + rng.randrange(0x400)
    elif k < .9: a = s + len(b) - rng.choice((4, 8, 16, 64))
    else: a = s + rng.randrange(len(b) - 64)
    return a


def user(ctx, m, log):
    rng = ctx.rng

    def show(kind, **d):
        ctx.violate(kind, dict(d, session=log[-25:]))

    def check_regs(out):
        got = parse_regs(out)
        want = dict((n, m.f.r[NAMES[n]]) for n in console.DUMPED)
        if got != want:
            show('register-dump', differs=dict((n, (got.get(n), v)) for n, v in want.items() if got.get(n) != v))

    def check_read(out, width, a, n):
        p = dump_problem(out, width, a, m.block(a, n))
        if p: show('read', problem=p, output=out)

    def ask(reg):
        n = case_of(rng, reg)
        out, err = yield say(rng.choice(('reg %s', '%s', 'Reg %s')) % n)
        v = m.f.r[NAMES[reg]]
        g = re.search(r'^%s = 0x([0-9a-f]{8}) \((\d+)\)$' % reg, out, re.M | re.I)
        if not g or int(g.group(1), 16) != v or int(g.group(2)) != v:
            show('reg', register=reg, output=out, want=hex(v))
        ctx.count('reg')

    def say(line):
        if rng.random() < .1:
            g = rng.choice(('  ', '   ', '\t', ' \t '))
            line = rng.choice(('  ', '\t', '')) + line.replace(' ', g) + rng.choice((' ', '\t', ''))
        log.append(line)
        ctx.cur = log[-25:]
        return line

    out, err = yield say('reg')
    check_regs(out)
    written = []
    for _ in range(rng.randrange(6, 30) if rng.random() < .993 else 1200):
        k = rng.random()
        if k < .22:
            reg = rng.choice(list(NAMES)) if rng.random() < .7 else rng.choice(('sp', 'control', 'msp', 'psp', 'pc', 'xpsr'))
            v = rng.choice((core.value(rng), address(rng, m, 4), rng.randrange(8)))
            if reg == 'control': v = rng.randrange(8)
            n = case_of(rng, reg)
            arg = spelled(rng, m, v)
            yield say('%s %s %s' % (rng.choice(('wreg', 'WREG')), n, arg))
            m.f.put(NAMES[reg], v)
            written.append(reg)
            ctx.count('wreg')
        elif k < .42:
            yield from ask(rng.choice(list(NAMES)))
        elif k < .66:
            width = rng.choice((8, 16, 32))
            n = rng.choice((1, 1, 2, 3, 5, 8, 17, rng.randrange(1, 60)))
            a = address(rng, m, n)
            vals = [rng.choice((0, 1, 9, 255, rng.getrandbits(width), rng.getrandbits(width), (1 << width) - 1)) &
                    ((1 << width) - 1) for _ in range(n)]
            args = ' '.join(spelled(rng, m, v, rng.random() < .3) for v in vals)
            yield say('%s %s %s' % (case_of(rng, rng.choice(WCMDS[width])), spelled(rng, m, a), args))
            data = bytearray()
            for v in vals: data += bytearray((v >> (8 * k)) & 255 for k in range(width // 8))
            m.write(a, data)
            ctx.count('write%d' % width)
            if rng.random() < .5:
                out, err = yield say('read8 0x%x %d' % (max(a - 4, 0) if m.block(a - 4, 1) else a, len(data) + 8))
                check_read(out, 8, max(a - 4, 0) if m.block(a - 4, 1) else a, len(data) + 8)
        elif k < .9:
            width = rng.choice((8, 16, 32))
            a = address(rng, m, 4)
            if rng.random() < .2:
                n, arg = width // 8, ''
            else:
                n = rng.choice((0, 1, 2, 3, 4, 5, 7, 8, 9, 16, 17, 40, 65, rng.randrange(400))) * (width // 8)
                arg = ' ' + spelled(rng, m, n, rng.random() < .5)
            left = len(m.block(a, 1 << 20))
            if left < n and left % (width // 8):
                a -= a % (width // 8)
                if len(m.block(a, 1 << 20)) % (width // 8): continue
            out, err = yield say('%s %s%s' % (case_of(rng, rng.choice(CMDS[width])), spelled(rng, m, a), arg))
            check_read(out, width, a, n)
            ctx.count('read%d' % width)
        elif k < .96:
            v, w = core.value(rng), core.value(rng)
            r = rng.randrange(13)
            a = address(rng, m, 4)
            word = m.word(a)
            q = rng.randrange(5)
            want = None
            if q == 0: e, want = '%d + %d' % (v, w), v + w
            elif q == 1: e, want = 'cpu.r[%d].unsigned' % r, m.f.r[r]
            elif q == 2 and word is not None: e, want = 'cpu.read32(0x%x).unsigned' % a, word
            elif q == 3:
                e = "cpu.write_register('r%d', 0x%x)" % (r, v)
                m.f.put(r, v)
            else:
                a &= ~3
                e = 'cpu.write16(0x%x, 0x%x)' % (a, v & 0xffff)
                m.write(a, bytearray((v & 255, (v >> 8) & 255)))
            out, err = yield say(rng.choice(('$%s', '$ %s')) % e)
            if want is not None and out.strip() != '0x%08x (%d)' % (want, want):
                show('expression', output=out, want=hex(want))
            if want is None and 'rror' in out + err: show('expression', output=out + err)
            ctx.count('expressions')
        else:
            out, err = yield say('reg')
            check_regs(out)
            ctx.count('register_dumps')
    out, err = yield say('reg')
    check_regs(out)
    for reg in sorted(set(written)): yield from ask(reg)
    if rng.random() < .1:
        for reg in NAMES: yield from ask(reg)
    for s, b in m.mem.regs:
        for a, n in ((s, 0x440), (s + len(b) - 0x60, 0x80)):
            out, err = yield say('read8 0x%x %d' % (a, n))
            check_read(out, 8, a, n)
    ctx.count('final_checks')
    if rng.random() < .3: yield say(rng.choice(('exit', 'quit')))


def run(ctx):
    rng = ctx.rng
    for n in range(ctx.n(2400, 60000)):
        binary = random_binary(rng)
        log = ['binary: %s' % (None if binary is None else '%d bytes %s' % (len(binary), binary[:8].hex()))]
        m = fresh(binary or b'')
        s = console.open_session(ctx, user(ctx, m, log), binary, n)
        ctx.case(tuple(log), log[-25:])
        ctx.count('commands', len(log) - 1)
        if s.died or s.code != 0 or (s.unfinished and log[-1].strip() not in ('exit', 'quit')):
            ctx.violate('session', {'session': log[-25:], 'died': s.died, 'code': s.code, 'unfinished': s.unfinished})
        if n < 2: ctx.sample({'session': log[:10]})
