"""C27: console sessions under valid, malformed and random command lines."""
import os, random, subprocess, sys
import core, console
from core import cm
from console import parse_regs, RAM

UNMAPPED = ('0x40000000', '0x20008000', '0x1fff7fff', '0x10000', '0xffffffff', '0x80000000')
VALID = ['reg', 'reg r0', 'r1', 'R2', 'sp', 'wreg r0 0x1fff8000', 'wreg r1 5', 'wreg R2 r1', 'wreg r3 [r0]', 'read 0 16',
         'r32 0x1fff8000 16', 'read16 r0 8', 'write8 0x1fff8004 1 2 3', 'w32 r0 0xdeadbeef 1', 'wh 0x1fff8010 0xffff',
         'disasm 0 8', 'd', 'd -c pc 8', 'step', 's', 's', 'reset', 'help', '?', 'info', 'i', 'map', 'log error', '$1 + 1',
         '$ cpu.pc', '$cpu.r[0].unsigned', 'wreg pc 8', 'wreg pc 0x1fff8000', 'rb 0x1fff8000 32', 'wreg control 2', 's1',
         "$cpu.write_register('r5', 77)", 'help step', 'psp', 'wreg sp 0x1fff8100', 'reset --halt', 'wreg r4 0b101',
         '$1 - 2', '$-cpu.r[3].unsigned - 1', '$None', '$"text"', '$[1, 2]', '$1 << 80', '$-1 << 40', '$0', '$True',
         '$cpu.apsr.n', '$2.5', '$()', '$b"\\x00"', '$cpu.r[1] - 7', '$cpu.read_memory_block(0, 4)', '$ -5',
         '$[].append(1)', 's31', 'fpscr', 'wreg s5 3', 'wreg fpscr 1', 'log warning',
         'log CRITICAL', 'd 0 40', 'd 0x1fff8000 2', 'disasm --center pc', 'read 0 300', 'help wreg', 'HELP', 'Reg SP']
EDGE = ['', '   ', ';', ' ; ; ', ';;;', '$cpu', '$cpu.delegate', '$lambda: 0', '$object()']


def malformed(rng):
    """A line that names something that does not exist or cannot be parsed."""
    u = rng.choice(UNMAPPED)
    bad = rng.choice(('zz', '0x', '0xg', '1.5', '08', '--', '_', '[', ']', '[]', '[zz]', '[r0', '[0x1fff8000', '[r0,]', '[,4]',
                      '[r0,1,2]', '[%s]' % u, '[r0,zz]', 'r99', 'r16', '"1"', '0b2', '1e3', '[[r0]]', 'pc+4', '%', 's32'))
    k = rng.randrange(34)
    return [
        'foo', 'reg ' + rng.choice(('r16', 'zz', '99', '[r0]', 's32', 'r', 'pc2', '_', 'r0,')), 'wreg', 'wreg r0',
        'wreg %s 1' % rng.choice(('r16', 'zz', '0', '[r0]', 's32', '', 'apsr', 'r-1')).strip(), 'wreg r0 ' + bad,
        'wreg pc ' + bad, 'read', 'read8 ' + bad, 'read16 0 ' + bad, 'r32 ' + u, 'read8 %s 4' % u, 'rh %s 8' % u,
        'write8', 'write8 0x1fff8000', 'write8 %s 1' % bad, 'write8 0x1fff8000 256', 'write%d 0x1fff8000 %s%s' % (
            rng.choice((8, 16, 32)), '1 ' * rng.randrange(40), bad),
        'write16 0x1fff8000 1 ' + bad, 'write32 0x1fff8000 %s 7' % bad, 'w 0x1fff8000 -1', 'disasm ' + bad.replace('--', 'q'),
        'disasm -x 0', 'd --foo', 'd -c ' + bad.replace('--', 'q'), 'disasm 0 ' + bad.replace('--', 'q'), 'd ' + u,
        'disasm --center=3 0', 'log', 'log ' + rng.choice(('foo', '7', '-x')),
        '$' + rng.choice(('1/0', 'undefined_name', '(', '', 'cpu.r[99]', 'cpu.s[32]', '[][0]', '{}["k"]', 'int("zz")',
                          'cpu.nothing', 'cpu.read_register(None)', '"a" + 1', 'x = 3', 'import os', 'cpu.r["q"]',
                          '(lambda: 1/0)()', '[1', 'def', ')', '1 +', '0x', 'cpu.execute([None])', 'None.x')),
        rng.choice(('wregr0 5', '!', 'r0 = 5 5'[3:], '\x00', '\u20ac', 'R', 'help_', 'exitt', 'quit_', 'cpu', '-', '[r0]',
                    '0x10', '#', "'", '\\', 'reg0', 'status', 'go', 'xpsr2')) if rng.random() < .9 else 'no' + bad,
        'write8 0x1fff8000 ' + bad, 'wreg r1 [%s,%s]' % (rng.choice(('r0', '0x1fff8000')), rng.choice(('zz', '1.5', '0x', ''))),
    ][k]


LOCALES = [{}, {}, {'LANG': 'C.UTF-8'}, {'LC_ALL': 'POSIX'}, {'PYTHONIOENCODING': 'utf-8'}, {'PYTHONIOENCODING': 'ascii'},
           {'PYTHONIOENCODING': 'latin-1'}, {'PYTHONUTF8': '1'}, {'LANG': 'xx_XX.UTF-8'}]


HOSTILE = [b'$ ' + b'(' * 20000, b'$ ' + b'-' * 30000 + b'1', b'$ (lambda f: f(f))(lambda f: f(f))', b'$ [0] * 10**12', b'reg ' + b'x' * 300000,
           b'zz ' * 20000, b'$ "%s" % (1,)' + b'.x' * 3000, b'wreg r0 ' + b'9' * 5000 + b'z', b'read8 ' + b'[' * 5000, b'$ 1 << -1',
           b'$ cpu.r[10**30]', b'write8 0x1fff8000 ' + b'1 ' * 5000 + b'256']


def garbled(rng):
    """A line that no encoding makes a command of; most are invalid as UTF-8."""
    g = rng.choice((b'\xff', b'\xc3', b'\x80\x81', b'\xed\xa0\x80', b'\xf0\x28', b'\xe9', b'\xc3\xa9', b'\xf4\x90\x80\x80', b'\xfe\xff'))
    return rng.choice((b'%s', b'reg %s', b'wreg r0 %s', b'wreg %s 1', b'write8 0x1fff8000 %s', b'write32 0x1fff8000 1 %s',
                       b'read8 %s', b'disasm 0 %s', b'log %s', b'$ "%s', b'$ %s(', b'r%s', b'%sreg', b'wreg r1 [%s]')) % g


def noise(rng):
    """A random line; it may happen to mean something, but never exit, quit or an expression."""
    alphabet = 'abcdefrwsxzpREG0123456789 ,;[]-_+*/.:!?@#%&()\t\'"\\{}=<>|~^`'
    parts = []
    for _ in range(rng.randrange(1, 6)):
        k = rng.random()
        if k < .5: parts.append(rng.choice(VALID + ['reg', 'wreg', 'read', 'write', 'disasm', 'step', 'log', 'help', 'd', 'r']))
        elif k < .6: parts.append(malformed(rng))
        else: parts.append(''.join(rng.choice(alphabet) for _ in range(rng.randrange(1, 9))))
    s = ' '.join(parts)
    return s.replace('$', '') if 'exit' not in s and 'quit' not in s else 'reg'


STATE = ['reg', 'read8 0 32', 'read8 0x1fff8000 0x140']


def make_binary(rng):
    w = [rng.choice((0x1fff8100, 0x20008000)), 9] + [rng.getrandbits(32) for _ in range(8)]
    code = [0x3001, 0x1c49, 0x6008, 0xe7fb, 0xbf00, 0xde00]
    b = bytearray()
    for x in w[:2]: b += bytearray((x >> (8 * i)) & 255 for i in range(4))
    for h in code: b += bytearray((h & 255, h >> 8))
    for x in w[2:]: b += bytearray((x >> (8 * i)) & 255 for i in range(4))
    return bytes(b)


def survivor(ctx, log):
    """After each malformed line the machine is as before; any line leaves a working console."""
    rng = ctx.rng

    def say(line):
        log.append(line)
        ctx.cur = log[-30:]
        return line

    def state():
        r = []
        for c in STATE:
            out, err = yield say(c)
            if not out.strip():
                ctx.violate('dead-command', {'session': log[-30:], 'command': c, 'output': out, 'stderr': err})
            r.append(out)
        if len(parse_regs(r[0])) != len(console.DUMPED):
            ctx.violate('dead-command', {'session': log[-30:], 'command': 'reg', 'output': r[0]})
        return r
    for c in ('wreg r0 0x1fff8000', 'write32 0x1fff8000 0x1fff8020 5 6'):
        yield say(c)
    before = yield from state()
    for _ in range(rng.randrange(8, 30) if rng.random() < .995 else 600):
        k = rng.random()
        if k < .05:
            # Ctrl-C, at the prompt or while a command runs
            if rng.random() < .5: yield None
            else: yield say(rng.choice(('$%s', 'reg r1; $ %s', '$%s;;')) % rng.choice((
                '(_ for _ in ()).throw(KeyboardInterrupt)', '(_ for _ in ()).throw(KeyboardInterrupt("stop"))')))
            now = yield from state()
            if now != before:
                ctx.violate('state-changed', {'session': log[-30:], 'line': 'interrupt', 'before': before, 'now': now})
            ctx.count('interrupts')
        elif k < .6:
            bad = malformed(rng)
            if rng.random() < .15: bad = '  ' + bad + '  '
            out, err = yield say(bad)
            if not (out + err).strip():
                ctx.violate('not-reported', {'session': log[-30:], 'line': bad})
            now = yield from state()
            if now != before:
                ctx.violate('state-changed', {'session': log[-30:], 'line': bad, 'before': before, 'now': now})
            ctx.count('malformed_lines')
            ctx.case(('bad', bad), log[-30:])
        else:
            line = noise(rng) if rng.random() < .5 else rng.choice(VALID if rng.random() < .9 else EDGE)
            yield say(line)
            before = yield from state()
            ctx.count('other_lines')
            ctx.case(('line', line), log[-30:])
    if rng.random() < .5:
        last = rng.choice(('exit', 'quit', 'EXIT', ' exit ', 'reg; exit', 'exit; wreg r0 1', 'quit;foo'))
        yield say(last)
        ctx.violate('exit-ignored', {'session': log[-30:]})


def transcript(lines, into):
    """Plays fixed lines, collecting what each printed."""
    for l in lines:
        r = yield l
        into.append(r[0])


def run(ctx):
    rng = ctx.rng

    def go(script, binary, log, ends=True):
        s = console.open_session(ctx, script, binary, 0)
        if s.died or s.code != 0:
            ctx.violate('session-died', {'session': log[-30:], 'died': s.died, 'code': s.code})
        elif s.unfinished and not ends:
            ctx.violate('session-ended', {'session': log[-30:]})
        return s

    for n in range(ctx.n(1600, 40000)):
        log = []
        s = go(survivor(ctx, log), make_binary(rng), log)
        last = log[-1].strip().lower()
        if s.unfinished and not any(w in last for w in ('exit', 'quit')):
            ctx.violate('session-ended', {'session': log[-30:]})
        ctx.count('sessions')
        if n < 2: ctx.sample({'session': log[:12]})

    # semicolons, spaces and empty lines
    for n in range(ctx.n(3200, 80000)):
        binary = make_binary(rng)
        cmds = []
        for _ in range(rng.randrange(3, 14) if rng.random() < .994 else rng.randrange(700, 1100)):
            k = rng.random()
            c = rng.choice(VALID) if k < .75 else malformed(rng)
            if ';' in c: continue
            cmds.append(c)
        groups, k = [], 0
        crowd = rng.random() < .04     # very many commands on one line
        if crowd:
            cmds = [rng.choice(cmds or ['reg']) for _ in range(rng.randrange(10, 80))]
            ctx.count('crowded_lines')
        while k < len(cmds):
            j = len(cmds) if crowd else rng.choice((1, 1, 2, 3))
            groups.append(cmds[k:k + j])
            k += j
            if rng.random() < .06: groups.append([])       # a line of separators only
        # the same commands on separate lines, spaced plainly
        plain = [c for g in groups for c in g]
        joined = []
        for g in groups:
            pad = lambda: rng.choice(('', '', ' ', '  ', '\t'))
            sep = lambda: rng.choice((';', ' ; ', '; ', ';;', ' ;; '))
            if not g:
                joined.append(rng.choice((';', ';;', ' ; ', '; ;', ';\t;;', ';;;;;;;;;')))
                ctx.count('empty_lines_of_separators')
                continue
            l = pad() + g[0].replace(' ', '  ' if rng.random() < .2 and g[0][:1] != '$' else ' ') + pad()
            for c in g[1:]: l += sep() + c + pad()
            joined.append(l)
        reps = []
        if rng.random() < .7:
            # an empty line repeats the whole previous line
            k = rng.randrange(len(groups) or 1)
            reps = [k]
        plain2, joined2 = [], []
        for k, g in enumerate(groups):
            times = rng.choice((1, 2, 3)) if k in reps else 0
            for _ in range(1 + times): plain2 += g
            joined2.append(joined[k])
            joined2 += [rng.choice(('', '', '   ')) for _ in range(times)]
            if times: ctx.count('repeats', times)
        if rng.random() < .2: joined2 = [''] + joined2        # nothing to repeat yet
        plain2 += STATE
        joined2 += STATE
        a, b = [], []
        log = [{'lines': plain2}, {'lines': joined2}]
        ctx.case(('equal', tuple(joined2)), log)
        s1 = go(transcript(plain2, a), binary, log, False)
        s2 = go(transcript(joined2, b), binary, log, False)
        ta, tb = ''.join(a), ''.join(b)
        if ta != tb:
            ctx.violate('lines-differ', {'separate': plain2, 'joined': joined2, 'separate output': ta[-1500:],
                                         'joined output': tb[-1500:]})
        ctx.count('equivalences')

    # the way a user starts it: a process of its own, input from a pipe, in this or that locale
    for n in range(3 if not ctx.thorough else 24):
        path = os.path.join(ctx.scratch, 'image.bin')
        with open(path, 'wb') as f: f.write(make_binary(rng))
        bad = []
        for _ in range(rng.choice((12, 12, 40, 600 if n == 0 else 20))):
            bad.append(rng.choice(HOSTILE) if rng.random() < .04 else garbled(rng) if n and rng.random() < .6 else malformed(rng).replace('\x00', 'q').encode('utf-8'))
        lines = [b'wreg r7 0x1234', b'reg'] + bad + [b'reg', b'reg r7']
        lines += rng.choice(([b'exit', b'reg r7'], []))
        args = [path] if rng.random() < .7 else []
        env = dict((k, v) for k, v in os.environ.items() if k[:3] != 'LC_' and k not in ('LANG', 'PYTHONIOENCODING', 'PYTHONUTF8'))
        where = rng.choice(LOCALES)
        env.update(where, PYTHONPATH=ctx.src)
        shown = [l.decode('latin-1') for l in lines]
        ctx.case(('process', tuple(lines)), {'args': args, 'lines': shown, 'environment': where})
        p = subprocess.Popen([sys.executable, '-m', 'cmdis'] + args, stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                             stderr=subprocess.PIPE, env=env, cwd=ctx.scratch)
        out, err = p.communicate(b'\n'.join(lines) + b'\n')
        what = {'lines': shown[-40:], 'environment': where, 'code': p.returncode, 'output': out.decode('latin-1')[-1500:],
                'stderr': err.decode('latin-1')[-1500:]}
        if p.returncode != 0 or out.count(b'r7 = 0x00001234 (4660)') != 1:
            ctx.violate('process', what)
        said = out.split(console.PROMPT.encode())
        if len(said) >= len(bad) + 5:
            if said[2].strip() != said[3 + len(bad)].strip() or not said[2].strip():
                ctx.violate('process-state-changed', dict(what, before=said[2].decode('latin-1')))
            for l, t in zip(bad, said[3:]):
                if not t.strip() and err.count(b'Traceback') == 0 and b'optparse' not in err and b'rror' not in err:
                    ctx.violate('not-reported', dict(what, line=l.decode('latin-1')))
        else:
            ctx.violate('process-lost-lines', dict(what, prompts=len(said) - 1, sent=len(lines)))
        ctx.count('processes')
        ctx.count('undecodable_lines', sum(any(c > 127 for c in l) for l in bad))
