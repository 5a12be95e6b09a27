"""C35: however the package is loaded, it behaves the same and leaves the process as it was."""
import json, os, random, subprocess, sys
import battery, core
from core import cm, encodings

MODULES = ['bitstring', 'decoder', 'disasm', 'formatter', 'helpers', 'instructions', 'mock_cpu', 'model', 'registers', 'utilities']
PROBE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'loadprobe.py')
HOWS = ('import', 'from', 'as', 'star')


def usable(loaded):
    return [p for p, need in sorted(battery.PARTS.items()) if set(need) <= loaded]


# What loading one of them brings along; the modules themselves are the authority only on what they need, so parts are used when
# their modules have been asked for by name.
def plan(rng, words, main):
    steps, loaded = [], set()
    order = MODULES + (['__main__'] if main else [])
    kind = rng.choice(('permutation', 'permutation', 'alone', 'threads', 'some'))
    if kind == 'alone': order = [rng.choice(order)]
    elif kind == 'some': order = rng.sample(order, rng.randrange(2, 6))
    else: rng.shuffle(order)
    seeds = lambda: rng.randrange(1 << 30)
    how = lambda: rng.choice(HOWS)

    def note(m):
        loaded.add(m)

    if kind == 'threads':
        k = rng.randrange(2, 8)
        first = order[:k]
        steps.append(('thread', [(m, rng.choice(('import', 'from', 'as')), rng.choice([p for p in battery.PARTS if set(battery.PARTS[p]) <= {m}] or [None]),
                                  seeds()) for m in first]))
        for m in first: note(m)
        order = order[k:]
    for m in order:
        steps.append(('load', m, how() if m != '__main__' else rng.choice(('import', 'from', 'as'))))
        if rng.random() < .1: steps.append(('load', m, how() if m != '__main__' else 'import'))
        note(m)
        if m == 'decoder' and 'disasm' not in loaded and '__main__' not in loaded and rng.random() < .5: steps.append(('prebuild',))
        ready = usable(loaded)
        if ready and rng.random() < .6: steps.append(('use', rng.choice(ready), seeds()))
    # the first use of what was loaded may come from several threads at once
    if usable(loaded) and rng.random() < .4:
        part = 'disasm' if 'disasm' in usable(loaded) and rng.random() < .6 else None
        if part: steps = [s for s in steps if s[0] != 'use' or s[1] != part]
        steps.append(('together', [(part or rng.choice(usable(loaded)), seeds()) for _ in range(rng.randrange(2, 6))]))
    for p in usable(loaded):
        steps.append(('use', p, seeds()))
    ready = usable(loaded)
    if ready and rng.random() < .3: steps.append(('fork', rng.choice(ready), seeds()))
    return kind, steps


def run(ctx):
    rng = ctx.rng
    pick = encodings().picker(lambda i: True, rng)
    main = 'build' in ctx.src
    plain = dict((k, v) for k, v in os.environ.items() if not k.startswith(('LC_', 'LANG', 'PYTHON')))
    for n in range(ctx.n(560, 6000)):
        words = []
        for _ in range(14):
            h1, h2, i = pick()
            words.append((h1, h2 or 0) if rng.random() < .85 else (rng.getrandbits(16), rng.getrandbits(16)))
        kind, steps = plan(rng, words, main)
        flags = rng.choice(([], [], ['-O'], ['-OO'], ['-u'], ['-S'], ['-X', 'utf8']))
        if flags == ['-S']: flags = []
        closed = rng.random() < .1
        env = dict(plain, PYTHONHASHSEED=str(rng.randrange(1 << 30)))
        env.update(rng.choice(({}, {'LC_ALL': 'C'}, {'LC_ALL': 'C.UTF-8'}, {'PYTHONIOENCODING': 'ascii'}, {'TERM': 'dumb', 'COLUMNS': '20'},
                               {'HOME': '/nonexistent'})))
        if rng.random() < .12: env = {'PYTHONHASHSEED': env['PYTHONHASHSEED']}
        gone = rng.random() < .08
        where = os.path.join(ctx.scratch, 'p%d' % n)
        os.mkdir(where)
        # the directory it runs in has files named like the package's own modules
        decoys = rng.sample(MODULES, rng.randrange(4))
        for m in decoys:
            with open(os.path.join(where, m + '.py'), 'w') as f: f.write('raise ImportError("a file of the user, not of the package")\n')
        p = {'src': ctx.src, 'steps': steps, 'words': words, 'closed': closed, 'main': main, 'gone': gone, 'switch': rng.choice((.005, 1e-4, 1e-6))}
        what = {'kind': kind, 'steps': steps, 'flags': flags, 'closed stdio': closed, 'env': sorted(set(env) - set(plain)) if len(env) > 1 else 'none', 'directory': 'removed' if gone else 'kept'}
        ctx.cur = what
        pf, rf = os.path.join(ctx.scratch, 'plan.json'), os.path.join(ctx.scratch, 'report.json')
        with open(pf, 'w') as f: json.dump(p, f)
        if os.path.exists(rf): os.remove(rf)
        cmd = [sys.executable, '-B'] + flags + [PROBE, pf, rf]
        if closed: cmd = ['/bin/sh', '-c', 'exec "$0" "$@" 0<&- 1>&- 2>&-'] + cmd
        try:
            r = subprocess.run(cmd, cwd=where, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60)
        except subprocess.TimeoutExpired:
            ctx.violate('load-hang', what)
            continue
        ctx.case((kind, tuple(s[:2] if s[0] not in ('thread', 'together') else tuple(a[0] for a in s[1]) for s in steps)), what)
        try:
            with open(rf) as f: rep = json.load(f)
        except (IOError, ValueError):
            ctx.violate('load-died', dict(what, code=r.returncode, output=r.stdout.decode(errors='replace')[-1500:]))
            continue
        left = sorted(set(os.listdir(where)) - set(m + '.py' for m in decoys))
        if rep['error']: ctx.violate('load-fails', dict(what, error=rep['error'][-1500:]))
        if rep['changed']: ctx.violate('load-changes', dict(what, changed=rep['changed']))
        if rep['events'] or left: ctx.violate('load-acts', dict(what, events=rep['events'][:5], files=left[:5]))
        if rep.get('printed') or r.stdout: ctx.violate('load-prints', dict(what, printed=rep.get('printed'), output=r.stdout.decode(errors='replace')[:800]))
        if r.returncode: ctx.violate('load-exit', dict(what, code=r.returncode))
        for part, seed, k, got in rep['uses']:
            expected = battery.run(part, seed, words)
            ctx.count('used_' + ('forked' if k == 1 else 'in_thread' if k == 2 else 'together' if k == 3 else part))
            if got != expected:
                at = next((x for x in range(min(len(got), len(expected))) if got[x] != expected[x]), min(len(got), len(expected)))
                ctx.violate('load-differs', dict(what, part=part, got=got[max(0, at - 60):at + 100], expected=expected[max(0, at - 60):at + 100]))
        ctx.count('loads')
        ctx.count('loads_' + kind)
        if flags[:1] in (['-O'], ['-OO']): ctx.count('optimised')
        if closed: ctx.count('closed_stdio')
        if gone: ctx.count('directory_removed')
        if len(env) == 1: ctx.count('bare_environment')
        if main and any(s[0] == 'load' and s[1] == '__main__' for s in steps): ctx.count('console_imported')
        for f in decoys: os.remove(os.path.join(where, f + '.py'))
        if not left: os.rmdir(where)
