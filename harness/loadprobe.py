"""A fresh interpreter that loads the package in the way its plan says, uses what is loaded, and reports what happened and changed."""
import json, os, random, signal, sys

plan = json.load(open(sys.argv[1]))
sys.path[0:1] = ['', plan['src']]
report = {'uses': [], 'events': [], 'changed': [], 'error': None}
here = os.path.dirname(os.path.abspath(__file__))
import builtins, gc, importlib, io, locale, logging, struct, threading, traceback, warnings
import enum, six, collections, functools, operator, string       # what the package itself needs from elsewhere
if plan['main']:
    import argparse, optparse
    try: import gnureadline
    except ImportError: pass
sys.path.append(here)
import battery
sys.path.remove(here)


def settings():
    root = logging.getLogger()
    return {'sys.path': list(sys.path), 'environment': dict(os.environ), 'directory': directory(),
            'signals': [str(signal.getsignal(n)) for n in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGPIPE)],
            'logging': (root.level, [id(h) for h in root.handlers], logging.root.manager.disable),
            'recursion limit': sys.getrecursionlimit(), 'threads': threading.active_count(), 'random': hash(random.getstate()),
            'hooks': [id(h) for h in (sys.excepthook, sys.displayhook, threading.excepthook)], 'stdio': [id(s) for s in (sys.stdin, sys.stdout, sys.stderr)],
            'warnings': ([repr(f) for f in warnings.filters], id(warnings.showwarning)), 'builtins': sorted((k, id(v)) for k, v in vars(builtins).items() if k != '_'),
            'collector': gc.isenabled(), 'locale': locale.setlocale(locale.LC_ALL), 'umask': umask(), 'argv': list(sys.argv), 'switch': sys.getswitchinterval(),
            'trace': (sys.gettrace() is None, sys.getprofile() is None), 'meta_path': len(sys.meta_path)}


def directory():
    try: return os.getcwd()
    except OSError: return None


def umask():
    m = os.umask(0o22)
    os.umask(m)
    return m


watching = [False]
logging.disable(logging.CRITICAL)       # an unknown register name is logged


def audit(event, args):
    if not watching[0]: return
    if event == 'open':
        mode, flags = args[1], args[2] or 0
        if set(mode) & set('wax+') if isinstance(mode, str) else flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC):
            report['events'].append('open for writing %r' % (args[0],))
    elif event.split('.')[0] in ('subprocess', 'socket', 'shutil', 'ctypes') or event in (
            'os.system', 'os.exec', 'os.posix_spawn', 'os.fork', 'os.remove', 'os.rename', 'os.mkdir', 'os.rmdir', 'os.chmod', 'os.putenv', 'os.kill'):
        report['events'].append('%s %r' % (event, args))


def load(name, how):
    watching[0] = True
    try:
        if how == 'import': importlib.import_module('cmdis.' + name)
        elif how == 'from': exec('from cmdis import %s' % name, {})
        elif how == 'star': exec('from cmdis.%s import *' % name, {})
        else: exec('import cmdis.%s as x' % name, {})
    finally:
        watching[0] = False


def use(part, seed, n=0):
    report['uses'].append((part, seed, n, battery.run(part, seed, plan['words'])))


def main():
    out, err = io.StringIO(), io.StringIO()
    if plan['closed'] is False:
        sys.stdout, sys.stderr = out, err
    if plan['gone']:        # it runs in a directory that is removed meanwhile
        os.mkdir('gone')
        os.chdir('gone')
        os.rmdir('../gone')
    before = settings()
    for step in plan['steps']:
        kind = step[0]
        if kind == 'load': load(step[1], step[2])
        elif kind == 'use': use(step[1], step[2])
        elif kind == 'prebuild': sys.modules['cmdis.decoder'].DECODER_TREE.build()
        elif kind == 'fork':
            r, w = os.pipe()
            pid = os.fork()
            if not pid:
                got = b'?'
                try: got = battery.run(step[1], step[2], plan['words']).encode()
                finally:
                    while got: got = got[os.write(w, got):]
                    os._exit(0)
            os.close(w)
            with os.fdopen(r, 'rb') as f: got = f.read().decode()
            os.waitpid(pid, 0)
            report['uses'].append((step[1], step[2], 1, got))
        elif kind == 'together':
            fault = []
            barrier = threading.Barrier(len(step[1]))

            def user(part, seed):
                try:
                    barrier.wait()
                    use(part, seed, 3)
                except BaseException:
                    fault.append(traceback.format_exc())
            ts = [threading.Thread(target=user, args=tuple(a)) for a in step[1]]
            sys.setswitchinterval(plan['switch'])
            for t in ts: t.start()
            for t in ts: t.join()
            sys.setswitchinterval(before['switch'])
            if fault: raise RuntimeError(fault[0])
        elif kind == 'thread':
            fault = []
            barrier = threading.Barrier(len(step[1]))

            def body(name, how, part, seed):
                try:
                    barrier.wait()
                    load(name, how)
                    if part: use(part, seed, 2)
                except BaseException:
                    fault.append(traceback.format_exc())
            ts = [threading.Thread(target=body, args=tuple(a)) for a in step[1]]
            for t in ts: t.start()
            for t in ts: t.join()
            if fault: raise RuntimeError(fault[0])
    after = settings()
    report['changed'] = [k for k in before if before[k] != after[k]]
    if plan['closed'] is False:
        report['printed'] = out.getvalue() + err.getvalue()
        sys.stdout, sys.stderr = sys.__stdout__, sys.__stderr__


sys.addaudithook(audit)
try:
    main()
except BaseException:
    sys.stdout, sys.stderr = sys.__stdout__, sys.__stderr__
    report['error'] = traceback.format_exc()
with open(sys.argv[2], 'w') as f:
    json.dump(report, f)
