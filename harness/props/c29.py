"""C29: the console's command set, help and start-up options."""
import logging, os, re
import core, console
from core import cm
from console import parse_regs, dump_problem, RAM
from props.c23 import NAMES, case_of
from props.c27 import VALID, STATE, malformed, make_binary, transcript

# What help documents: each command with the names it goes by.
GROUPS = [('info', 'i'), ('status', 'stat'), ('reg',), ('wreg',), ('reset',), ('read8', 'read', 'r', 'rb'),
          ('read16', 'r16', 'rh'), ('read32', 'r32', 'rw'), ('write8', 'write', 'w', 'wb'), ('write16', 'w16', 'wh'),
          ('write32', 'w32', 'ww'), ('step', 's'), ('help', '?'), ('disasm', 'd'), ('log',), ('exit', 'quit')]
GROUP = dict((n, g) for g in GROUPS for n in g)
LEVELS = {'debug': 10, 'info': 20, 'warning': 30, 'error': 40, 'critical': 50}
MISSING = ('status', 'stat')        # known finding: listed by help, unknown to the console


def threshold():
    """The lowest level a module's own logger lets through."""
    l = logging.getLogger('cmdis.verif.probe')
    return min([v for v in LEVELS.values() if l.isEnabledFor(v)] or [99])


class Logging(object):
    """The process's logging as a new process finds it, put back afterwards."""
    def __enter__(self):
        r = logging.getLogger()
        self.saved = r.handlers[:], r.level
        r.handlers[:] = []
        r.setLevel(logging.WARNING)

    def __exit__(self, *a):
        r = logging.getLogger()
        r.handlers[:] = self.saved[0]
        r.setLevel(self.saved[1])


def helper(ctx, log):
    """help lists the documented names, each of which is a command."""
    rng = ctx.rng

    def say(line):
        log.append(line)
        ctx.cur = log[-20:]
        return line
    for _ in range(rng.randrange(3)):
        yield say(rng.choice(VALID + [malformed(rng)]))
    out, err = yield say(rng.choice(('help', '?', 'HELP', ' help ', 'Help')))
    rows = []
    for l in out.split('\n'):
        g = re.match(r'^\s*([\w?]+(?:, *[\w?]+)*)(?:\s{2,}|\s*$)', l)
        if g: rows.append([n.strip() for n in g.group(1).split(',')])
    for g in GROUPS:
        if not any(set(g) <= set(r) for r in rows):
            ctx.violate('help', {'missing': g, 'output': out})
    names = [n for r in rows for n in r if n in GROUP]
    rng.shuffle(names)
    for n in names:
        if n in ('exit', 'quit'): continue
        odd = 'zq' + ''.join(rng.choice('xyvw') for _ in range(4))
        out0, err0 = yield say(odd)
        c = case_of(rng, n)
        out1, err1 = yield say(c)
        what = {'session': log[-20:], 'command': c, 'output': out1 + err1}
        unknown = (out0 + err0).replace(odd, '') == (out1 + err1).replace(n, '').replace(c, '')
        if n in MISSING:
            if unknown: ctx.known('help-lists-status', what)
        elif unknown: ctx.violate('listed-but-unknown', what)
        ctx.count('listed_names')
        ctx.case(('listed', c), what)
    for n in rng.sample(sorted(NAMES), 6) + ['r%d' % rng.randrange(16), 's%d' % rng.randrange(32)]:
        c = case_of(rng, n)
        a = yield say('reg ' + n)
        b = yield say(c)
        if a != b: ctx.violate('register-command', {'session': log[-20:], 'reg': a, 'alone': b})
        ctx.count('register_commands')
        ctx.case(('register', c), log[-3:])
    yield say(case_of(rng, rng.choice(('exit', 'quit'))))
    ctx.violate('exit-ignored', {'session': log[-20:]})


def respell(rng, line):
    """The same command under another of its names, in any letter case."""
    head, sep, rest = line.partition(' ')
    g = GROUP.get(head.lower())
    if g is None:
        if head.lower() in NAMES and not rest: return rng.choice((case_of(rng, head.lower()), 'reg ' + case_of(rng, head.lower())))
        return line
    if g[0] == 'reg' and rest.strip().lower() in NAMES and rng.random() < .4: return case_of(rng, rest.strip().lower())
    return case_of(rng, rng.choice(g)) + sep + rest


class Level(object):
    """A line that also looks at the logging threshold once it has been carried out."""


def levels(ctx, log, start):
    rng = ctx.rng
    now = start

    def look():
        t = threshold()
        if t != now: ctx.violate('log-level', {'session': log[-20:], 'threshold': t, 'want': now})
    for _ in range(rng.randrange(4, 16)):
        k = rng.random()
        if k < .6:
            n = rng.choice(sorted(LEVELS))
            log.append('%s %s%s' % (case_of(rng, 'log'), case_of(rng, n), rng.choice(('', '', ' debug'))))
            now = LEVELS[n]
        elif k < .75: log.append('log ' + rng.choice(('foo', '7', '-x', '', 'warn', 'debug_', '10')))
        else: log.append(rng.choice(VALID) if rng.random() < .7 else malformed(rng))
        if log[-1].lower().startswith('log') and k >= .75:
            log.pop()
            continue
        yield log[-1]
        look()
        ctx.count('levels')
        ctx.case(('level', log[-1], now), log[-20:])


def image(rng):
    n = rng.choice((0, 1, 2, 3, 4, 5, 7, 8, 9, 63, 64, 1000, 0x7fff, 0x8000, 0xffff, 0x10000, 0x10001, 0x10002, 0x12345,
                    rng.randrange(0x14000)))
    if rng.random() < .04: n = rng.choice((0x17fff, 0x18001, 0x20000, 0x20003, 0x40001, 0x100001, rng.randrange(0x60000)))
    b = bytearray(rng.getrandbits(8) for _ in range(min(n, 300)))
    while len(b) < n: b += bytes(b[-200 - len(b) // 2:]) + bytes((rng.getrandbits(8),))
    del b[n:]
    if n >= 4 and rng.random() < .8:
        sp = rng.choice((0, RAM + 0x100, RAM + 0x10000, RAM + 0x10400, 0x20010000, 0x20001000))
        b[:4] = bytearray((sp >> (8 * k)) & 255 for k in range(4))
        if rng.random() < .05:      # far into RAM
            sp = rng.choice((0x20100000, 0x20108000, 0x20200000, 0x20400010, 0x21000000, RAM + 4 * rng.randrange(1 << 21)))
            b[:4] = bytearray((sp >> (8 * k)) & 255 for k in range(4))
    elif n >= 4: b[3] = rng.choice((0, 0x10, 0x1f))
    return bytes(b)


def inspector(ctx, log, data):
    """The image is at address 0, followed by zeros to 64 KiB; RAM is all zeros."""
    rng = ctx.rng
    size = max(0x10000, len(data))
    sp = int.from_bytes(bytes(data[:4]).ljust(4, b'\0'), 'little')
    ram = max(sp - RAM, 0x10000) if sp else 0x10000
    spots = [0, max(len(data) - 0x40, 0), size - 0x30, rng.randrange(size), rng.randrange(max(len(data), 1))]
    for a in spots:
        n = rng.randrange(1, 0x80)
        want = bytearray(data[a:a + n])
        want += bytearray(max(0, min(n, size - a) - len(want)))
        log.append('read8 0x%x %d' % (a, n))
        ctx.case(('image', len(data), a, n), log[-10:])
        out, err = yield log[-1]
        p = dump_problem(out, 8, a, want)
        if p: ctx.violate('image', {'length': len(data), 'problem': p, 'session': log[-10:]})
        ctx.count('image_reads')
    for a in (RAM, RAM + ram - 0x20):
        log.append('read8 0x%x 0x30' % a)
        out, err = yield log[-1]
        p = dump_problem(out, 8, a, bytearray(min(0x30, RAM + ram - a)))
        if p: ctx.violate('ram', {'length': len(data), 'sp': hex(sp), 'problem': p, 'session': log[-10:]})
        ctx.count('ram_reads')


def run(ctx):
    rng = ctx.rng

    def go(script, args, log, ended):
        with Logging():
            s = console.session(script, args)
        if s.died or s.code != 0 or s.unfinished != ended:
            ctx.violate('session', {'session': log[-20:], 'args': args, 'died': s.died, 'code': s.code, 'unfinished': s.unfinished,
                                    'stderr': s.stderr})
        return s

    def put(data):
        path = os.path.join(ctx.scratch, rng.choice(('image.bin', 'a b', 'x', '.bin', 'image-d.bin')))
        with open(path, 'wb') as f: f.write(data)
        return path

    for n in range(ctx.n(480, 12000)):
        log = []
        go(helper(ctx, log), [put(make_binary(rng))] if rng.random() < .7 else [], log, True)
        ctx.count('helps')
        if n < 1: ctx.sample({'session': log[:12]})

    for n in range(ctx.n(3200, 80000)):
        lines = []
        for _ in range(rng.randrange(4, 16)):
            l = rng.choice(VALID) if rng.random() < .75 else malformed(rng)
            if l[:1] != '$' and l.strip(): lines.append(l)
        other = [respell(rng, l) for l in lines]
        a, b = [], []
        args = [put(make_binary(rng))]
        ctx.case(('respelled', tuple(other)), {'lines': lines, 'respelled': other})
        go(transcript(lines + STATE, a), args, lines, False)
        go(transcript(other + STATE, b), args, other, False)
        for x, y, l, o in zip(lines + STATE, other + STATE, a, b):
            h = x.split()[0]
            if GROUP.get(h.lower(), ('',))[0] == 'status': continue
            if l != o: ctx.violate('alias', {'line': x, 'respelled': y, 'output': l, 'respelled output': o, 'session': other})
        ctx.count('respelled_sessions')
        ctx.count('respelled_lines', sum(x != y for x, y in zip(lines, other)))

    for n in range(ctx.n(800, 20000)):
        log = []
        level = rng.choice(sorted(LEVELS))
        args, want = rng.choice((([], 30), (['-d', level], LEVELS[level]), (['--debug', level], LEVELS[level]),
                                 (['--debug=' + level], LEVELS[level]), (['-d' + level], LEVELS[level])))
        data = image(rng)
        if rng.random() < .6: args = rng.choice((args + [put(data)], [put(data)] + args))
        log.append('started with %s' % args)
        go(levels(ctx, log, want), args, log, False)
        ctx.count('level_sessions')

        data = image(rng)
        args = [put(data)]
        if rng.random() < .4: args = rng.choice((args + ['-d', level], ['-d', level] + args, ['--debug=' + level] + args))
        log = ['%d bytes, %s' % (len(data), args)]
        go(inspector(ctx, log, data), args, log, False)
        ctx.count('images')

    # starts that never reach a prompt
    def never():
        reached.append(1)
        yield 'exit'
    version = cm.cmdis.__version__
    for n in range(ctx.n(800, 8000)):
        ok, args = rng.choice(((True, ['--version']), (True, ['--help']), (True, ['-h']), (True, ['-d', 'info', '--version']),
                               (False, ['-d', rng.choice(('foo', '', '10', 'Warning1'))]), (False, ['-d']), (False, ['-x']),
                               (False, ['--foo']), (False, [os.path.join(ctx.scratch, 'no', 'such', 'file')]),
                               (False, [ctx.scratch]), (False, ['/dev/null', '/dev/null']), (False, ['--debug=zz', '/dev/null'])))
        reached = []
        ctx.case(('start', tuple(args), n & 7), {'args': args})
        with Logging():
            s = console.session(never(), args)
        good = s.code == 0 if ok else s.code not in (0, None)
        if reached or s.died or not good or not (s.last + s.stderr).strip():
            ctx.violate('start', {'args': args, 'reached a prompt': bool(reached), 'died': s.died, 'code': s.code,
                                  'output': s.last + s.stderr})
        if '--version' in args and version not in s.last + s.stderr:
            ctx.violate('version', {'args': args, 'output': s.last + s.stderr})
        ctx.count('starts_refused' if not ok else 'starts_informational')
