"""Runs one shard of one check in its own process and writes what its monitors observed."""
import argparse, array, importlib, json, os, random, resource, signal, sys, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import core, meta

STALL = 90      # seconds without a finished case before the case counts as hung


class Hang(BaseException):
    pass


class Ctx(object):
    def __init__(self, a):
        self.prop, self.shard, self.nshards, self.seed, self.tier = a.prop, a.shard, a.nshards, a.seed, a.tier
        self.src, self.scratch = a.src, a.scratch
        self.thorough = a.tier == 'thorough'
        self.rng = random.Random('%s/%d/%d/%s' % (a.prop, a.seed, a.shard, a.tier))
        self.t0 = time.time()
        self.deadline = self.t0 + a.budget
        self.evaluations = 0
        self.keys = set()
        self.counters = {}
        self.samples = []
        self.violations = []
        self.knowns = {}
        self.cur = None
        self.stopped = False
        self.known_keys = set(json.loads(a.known))
        self.tick = (0, self.t0)
        self.max_violations = 4
        self.scale = meta.CHECKS[a.prop].get('scale', 1)

    def n(self, quick, thorough=None):
        """How many cases this shard runs."""
        total = (thorough if thorough is not None else quick * 20) if self.thorough else int(quick * self.scale)
        return max(1, total // self.nshards)

    def case(self, key=None, cur=None):
        """One evaluated case; `key` identifies it when it is non-trivial, `cur` describes it."""
        self.evaluations += 1
        if key is not None and len(self.keys) < 3000000:
            self.keys.add(hash(key))
        self.cur = cur
        if not self.evaluations & 63 and time.time() > self.deadline:
            self.stopped = True
            raise core.Stop()

    def count(self, name, k=1):
        self.counters[name] = self.counters.get(name, 0) + k

    def sample(self, obj, limit=3):
        if len(self.samples) < limit:
            self.samples.append(obj)

    def violate(self, kind, detail):
        self.violations.append({'kind': kind, 'detail': detail, 'case': self.evaluations})
        if len(self.violations) >= self.max_violations:
            raise core.Stop()

    def known(self, key, detail):
        if key not in self.known_keys:
            self.violate(key, detail)
            return
        k = self.knowns.setdefault(key, [0, detail])
        k[0] += 1

    def on_tick(self, signum, frame):
        now = time.time()
        if self.evaluations != self.tick[0]:
            self.tick = (self.evaluations, now)
        elif now - self.tick[1] > STALL:
            self.tick = (self.evaluations, now)
            raise Hang()


def safe(x, depth=0):
    if depth > 6: return repr(x)[:200]
    if isinstance(x, dict): return dict((str(k), safe(v, depth + 1)) for k, v in x.items())
    if isinstance(x, (list, tuple, set)): return [safe(v, depth + 1) for v in x]
    if isinstance(x, (bytes, bytearray)): return bytes(x).hex()
    if x is None or isinstance(x, (bool, int, float, str)): return x
    return repr(x)[:300]


def main():
    p = argparse.ArgumentParser()
    for k in ('prop', 'tier', 'src', 'out', 'scratch', 'known'):
        p.add_argument('--' + k)
    for k in ('shard', 'nshards', 'seed'):
        p.add_argument('--' + k, type=int)
    p.add_argument('--budget', type=float)
    a = p.parse_args()
    resource.setrlimit(resource.RLIMIT_AS, (5 << 30, 5 << 30))
    ctx = Ctx(a)
    status, err = 'ok', None
    try:
        core.bind(a.src)
    except BaseException:
        # building and importing is what build.sh decides; nothing was observed here
        status, err = 'error', traceback.format_exc()
    else:
        signal.signal(signal.SIGALRM, ctx.on_tick)
        signal.setitimer(signal.ITIMER_REAL, 3, 3)
        try:
            mod = importlib.import_module('props.' + a.prop.lower())
            try:
                mod.run(ctx)
            except core.Stop:
                pass
            except Hang:
                ctx.violations.append({'kind': 'hang', 'case': ctx.evaluations,
                                       'detail': {'case': ctx.cur, 'stalled_s': STALL}})
            except Exception as e:
                tb = traceback.extract_tb(sys.exc_info()[2])
                if any(f.filename.startswith(a.src) for f in tb):
                    ctx.violations.append({'kind': 'exception', 'case': ctx.evaluations, 'detail': {
                        'case': ctx.cur, 'exception': '%s: %s' % (type(e).__name__, e),
                        'where': ['%s:%s %s' % (os.path.basename(f.filename), f.lineno, f.name) for f in tb[-4:]]}})
                else:
                    status, err = 'error', traceback.format_exc()
        except BaseException:
            status, err = 'error', traceback.format_exc()
        signal.setitimer(signal.ITIMER_REAL, 0)
    with open(a.out + '.keys', 'wb') as f:
        array.array('q', ctx.keys).tofile(f)
    with open(a.out, 'w') as f:
        json.dump(safe({'status': status, 'error': err, 'evaluations': ctx.evaluations, 'counters': ctx.counters,
                        'samples': ctx.samples, 'violations': ctx.violations, 'knowns': ctx.knowns,
                        'stopped': ctx.stopped, 'wall': time.time() - ctx.t0}), f)


main()
