"""The lock-step driver used by the execution checks (C05-C11)."""
import arm, core
from core import (cm, Machine, random_state, step_compare, describe, encodings, real_decode, tobytes, hexw, pc_operand,
                  Stop)


class Stepper(object):
    """Executes random instructions on real machines against the model and hands outcomes to a judge."""

    def __init__(self, ctx, want, kinds=('sparse', 'mock'), fresh=200):
        self.ctx, self.rng = ctx, ctx.rng
        self.pick = encodings().picker(want, ctx.rng)
        self.kinds, self.fresh = kinds, fresh
        self.machines = {}
        self.used = {}
        self.mnems = set()

    def machine(self, kind):
        if self.used.get(kind, self.fresh) >= self.fresh:
            self.machines[kind] = Machine(kind, self.rng)
            self.used[kind] = 0
        self.used[kind] += 1
        return self.machines[kind]

    def run(self, n, judge, tweak=None):
        """judge(h1, h2, insn, case, outcome, diffs) returns the differences that break its property."""
        ctx, rng = self.ctx, self.rng
        for _ in range(n):
            h1, h2, i = self.pick()
            self.one(h1, h2, i, judge, tweak)

    def one(self, h1, h2, i, judge, tweak=None, kind=None):
        ctx, rng = self.ctx, self.rng
        kind = kind or rng.choice(self.kinds)
        m = self.machine(kind)
        s = random_state(rng, m.mem0, i)
        if tweak:
            tweak(rng, s, i)
        d = describe(h1, h2, s)
        d['machine'] = kind
        d['model'] = i.mnem
        obj = real_decode(tobytes(h1, h2), s.r[15])
        if obj in (arm.UNDEF, arm.UNPRED):
            self.used[kind] = self.fresh
            ctx.case(None, d)
            ctx.count('not_decoded')
            return
        ctx.case((h1, h2, s.r[i.n or 0], s.r[i.m or 0], s.xpsr >> 28), d)
        m.load_state(s)
        special = pc_operand(i)
        alt = None
        if special:
            alt = s.copy(mem=s.mem)
        o = step_compare(m, obj, i, s)
        ctx.count('steps')
        self.mnems.add(i.mnem)
        ctx.sample({'case': d, 'after': {'r': ['%08x' % x for x in o.after[0]], 'xpsr': '%08x' % o.after[1]['xpsr']}}, 1)
        diffs = o.all()
        if diffs:
            self.used[kind] = self.fresh        # the machine and its shadow no longer agree
        bad = judge(h1, h2, i, d, o, diffs)
        if bad and not (special and self.known(m, i, alt, o)):
            ctx.violate('step', dict(d, insn=repr(i), diffs=bad))

    def known(self, m, i, alt, o):
        """Recognises exactly the recorded findings by their whole effect."""
        arm.execute(i, alt, 0)
        key = 'pc-operand-raw'
        r, sp = o.after
        if r == alt.r and all(sp[k] == getattr(alt, k) for k in core.SPECIALS) and not o.mem and not o.events:
            self.ctx.known(key, {'encoding': repr(i)})
            return True
        return False

    def done(self):
        self.ctx.count('mnemonics_seen_by_shards', len(self.mnems))


DP = set(['add', 'sub', 'adc', 'sbc', 'rsb', 'and', 'eor', 'orr', 'bic', 'shift', 'mov', 'mvn', 'mul', 'adr', 'ext', 'rev'])
SETTERS = set(['add', 'sub', 'adc', 'sbc', 'rsb', 'and', 'eor', 'orr', 'bic', 'shift', 'mov', 'mvn', 'mul', 'cmp', 'cmn', 'tst'])
