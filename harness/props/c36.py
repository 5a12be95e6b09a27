"""C36: expressions in console sessions against the same expressions evaluated over a CPU of our own."""
import re
import core, console
from core import cm, M32
from console import random_binary, parse_regs, dump_problem, RAM
from props.c23 import NAMES

WRITABLE = ['r%d' % k for k in range(13)] + ['sp', 'lr', 'psp', 'msp', 'primask', 'basepri', 'faultmask']


class Gen(object):
    """Random expressions; none contains a semicolon, which would end the command."""
    def __init__(self, rng):
        self.rng, self.names, self.fresh = rng, [], 0

    def number(self):
        rng = self.rng
        v = rng.choice((0, 1, 2, 3, 7, 10, 255, rng.randrange(100), rng.getrandbits(32), core.value(rng)))
        return rng.choice(('%d', '%d', '0x%x', '0b{0:b}', '0o%o')).replace('0b{0:b}', bin(v)).replace('%d', str(v)).replace('%x', '%x' % v).replace('%o', '%o' % v)

    def address(self, size=4):
        rng = self.rng
        base = rng.choice((0, RAM, RAM))
        return '0x%x' % (base + rng.randrange(0x200 // size) * size)

    def name(self):
        self.fresh += 1
        return self.rng.choice('abnxyk') + str(self.fresh)

    def leaf(self):
        rng = self.rng
        k = rng.randrange(11)
        if k < 2: return self.number()
        if k == 2 and self.names: return rng.choice(self.names)
        if k == 3: return 'cpu.r[%d].%s' % (rng.randrange(16), rng.choice(('unsigned', 'unsigned', 'signed')))
        if k == 4: return 'cpu.%s.unsigned' % rng.choice(('sp', 'pc', 'lr', 'msp', 'psp', 'xpsr', 'control'))
        if k == 5: return 'cpu.read%d(%s).unsigned' % (rng.choice((8, 16, 32)), self.address())
        if k == 6: return 'int(cpu.apsr.%s)' % rng.choice('nzcv')
        if k == 7: return 'cpu.read_memory_block(%s, 8)[%d]' % (self.address(), rng.randrange(8))
        if k == 8: return "cpu.read_register('%s').unsigned" % rng.choice(sorted(NAMES))
        return self.number()

    def num(self, d=0):
        rng = self.rng
        if d > 3 or rng.random() < .35: return self.leaf()
        k = rng.randrange(13)
        a = self.num(d + 1)
        if k < 4: return '(%s %s %s)' % (a, rng.choice(('+', '-', '*', '&', '|', '^')), self.num(d + 1))
        if k == 4: return '(-%s)' % a
        if k == 5: return '(%s if %s %s %s else %s)' % (a, self.num(d + 1), rng.choice(('<', '==', '>=', '!=')), self.num(d + 1), self.num(d + 1))
        if k == 6: return '(%s >> %d)' % (a, rng.randrange(9))
        if k == 7: return '((%s) %% %d)' % (a, rng.randrange(1, 70))
        if k == 8: return '%s(%s, %s)' % (rng.choice(('max', 'min')), a, self.num(d + 1))
        if k == 9: return 'sum(%s)' % self.comprehension('', '', d + 1)
        if k == 10:
            n = self.name()
            self.names.append(n)
            body = self.num(d + 1)
            self.names.pop()
            return '(lambda %s: %s)(%s)' % (n, body, a)
        if k == 11: return 'cmdis.utilities.bfx((%s) & 0xffffffff, %d, %d)' % ((a,) + rng.choice(((7, 0), (31, 16), (15, 8))))
        return 'len(%s)' % self.comprehension('[', ']', d + 1)

    def comprehension(self, left, right, d):
        rng = self.rng
        n = self.name()
        self.names.append(n)
        body = self.num(d)
        if rng.random() < .3: cond = ' if (%s) %% 2 == 0' % rng.choice((n, self.leaf()))
        else: cond = ''
        if rng.random() < .4: body = 'cpu.r[%s %% 16].unsigned + %s' % (n, body)
        elif rng.random() < .4: body = 'cpu.read8(%s + %s).unsigned' % (self.address(), n)
        self.names.pop()
        return '%s%s for %s in range(%d)%s%s' % (left, body, n, rng.randrange(6), cond, right)

    def value(self):
        """An expression of any type that prints the same wherever it is evaluated."""
        rng = self.rng
        k = rng.randrange(16)
        if k < 6: return self.num()
        if k == 6: return self.comprehension('[', ']', 1)
        if k == 7: return 'tuple(%s)' % self.comprehension('', '', 1)
        if k == 8: return '%s %s %s' % (self.num(2), rng.choice(('<', '==', '>=', '!=')), self.num(2))
        if k == 9: return 'hex(%s)' % self.num(1)
        if k == 10: return '"%%08x %%d" %% (%s, %s)' % (self.num(2), self.num(2))
        if k == 11: return rng.choice(('None', 'True', 'False', '[]', '()', '""', '"text"', "'it is'", '{}', '1.5', '0.0', '-0.25', 'b"ab"', 'not cpu', 'cpu is None',
                                       'int', 'len("abc")', '"%s" % cpu.mode', 'cpu.mode', 'type(cpu.pc).__name__', '[None]', '1j', 'range(3)', '"a" "b"',
                                       'cpu.is_privileged', 'repr(cpu.sp)', '10 ** 30', '-(10 ** 12)', '"$"', '"  spaces   kept  "', '"Upper and lower"'))
        if k == 12: return 'cpu.r[%d]' % rng.randrange(16)
        if k == 13: return rng.choice(('cpu.r[%d][0:8]', 'cpu.r[%d] + 1', '~cpu.r[%d]', 'cpu.r[%d][31]', 'cpu.r[%d] %% "01"')) % rng.randrange(16)
        if k == 14: return '[cpu.r[n] for n in range(%d)]' % rng.randrange(5)
        return rng.choice(('sorted(%s)', 'list(%s)', 'bytearray(x & 255 for x in (%s))', 'any(%s)', 'dict(enumerate(%s))')) % self.comprehension('', '', 1).join('()')

    def effect(self):
        rng = self.rng
        k = rng.randrange(11)
        v = '(%s) & 0xffffffff' % self.num(2)
        if k == 0: return "cpu.write_register('%s', %s)" % (rng.choice(WRITABLE), v)
        if k == 1: return 'cpu.r.__setitem__(%d, %s)' % (rng.randrange(15), v)
        if k == 2: return 'cpu.write32(%s, %s)' % (self.address(), v)
        if k == 3: return 'cpu.write16(%s, (%s) & 0xffff)' % (self.address(), v)
        if k == 4: return 'cpu.write8(%s, (%s) & 0xff)' % (self.address(), v)
        if k == 5: return 'cpu.write_memory_block(%s, bytearray([1, 2, 3, (%s) & 255]))' % (self.address(), v)
        if k == 6: return "setattr(cpu, '%s', %s)" % (rng.choice(('sp', 'lr', 'msp', 'psp')), v)
        if k == 7: return "setattr(cpu.apsr, '%s', (%s) & 1)" % (rng.choice('nzcv'), v)
        if k == 8: return '[cpu.write8(%s + n, n * 3) for n in range(%d)]' % (self.address(), rng.randrange(1, 9))
        if k == 9: return 'cpu.execute([cmdis.disasm.decoder.decode(bytearray([%d, 0x%x]))])' % (rng.randrange(256), rng.choice((0x20, 0x21, 0x30, 0x3a, 0x43, 0x18)))
        return '[cpu.write_register("r%%d" %% n, cpu.r[n].unsigned + n) for n in range(%d)]' % rng.randrange(1, 8)


BAD = ['1/0', 'undefined', '(', ')', '1 +', 'cpu.nothing', 'cpu.r[99]', 'x = 5', 'import os', 'cpu.r["x"]', '[][0]', '{}["k"]', 'int("zz")', 'for', '"open', 'lambda',
       '[1/n for n in (1, 0)]', '(lambda: undefined)()', 'cpu.read32()', 'raise ValueError', 'print', 'del cpu', '0x', '1 2', 'bytearray([256])', 'None + 1']
BAD.remove('print')
BIND = ['(cpu := 5)', '(cmdis := 0)', '(traceback := None)', '[(LEVELS := 1), (sys := 2)][0]', '(ToolError := 7)', '(dumpHexData := 3)', '(self := 1)', '(args := "x")',
        '(eval := 4)', '(int := 3)', '(logging := 9)', '(bytearray := 1)', '(type := 2)']


def expected(result):
    if result is None: return ''
    if type(result) is int: return '0x%08x (%d)\n' % (result, result)
    return '%s\n' % (result,)


def user(ctx, cpu, log):
    rng = ctx.rng

    def say(line):
        log.append(line)
        ctx.cur = log[-25:]
        return line

    def evaluate(text):
        return eval(text, {'cpu': cpu, 'cmdis': cm.cmdis})

    def spell(e):
        return rng.choice(('$%s', '$ %s', ' $  %s', '$%s ', '$\t%s')) % e

    def show(kind, **d):
        ctx.violate(kind, dict(d, session=log[-25:]))

    for _ in range(rng.randrange(5, 25)):
        k = rng.random()
        g = Gen(rng)
        if k < .5:
            e = g.value()
            try: want = expected(evaluate(e))
            except Exception: continue
            if '\n' in want[:-1]: continue
            out, err = yield say(spell(e))
            if out != want or err: show('expression', expression=e, printed=out[:1500], errors=err[-500:], want=want[:1500])
            ctx.count('values')
            if ' for ' in e or 'lambda' in e: ctx.count('nested_scopes')
            again = rng.random()
            if again < .1:
                out, err = yield say('')
                if out != want or err: show('repeat', expression=e, printed=out[:1500], want=want[:1500])
                ctx.count('repeats')
            elif again < .2:
                e2 = g.num()
                try: want2 = expected(evaluate(e2))
                except Exception: continue
                out, err = yield say(spell(e) + rng.choice((';', ' ; ', ';;')) + spell(e2))
                if out != want + want2 or err: show('two', expressions=[e, e2], printed=out[:1500], want=(want + want2)[:1500])
                ctx.count('pairs')
        elif k < .75:
            e = g.effect()
            out, err = yield say(spell(e))
            want = expected(evaluate(e))
            if out != want or err: show('effect', expression=e, printed=out[:1500], errors=err[-500:], want=want)
            ctx.count('effects')
        elif k < .82:
            e = rng.choice(BAD)
            try: evaluate(e)
            except Exception as x: message = str(x)
            out, err = yield say(spell(e))
            # that it failed must be said; the wording is the interpreter's
            if not re.search('rror|xception', out): show('unreported', expression=e, printed=out, errors=err[-500:])
            ctx.count('failing')
        elif k < .88:
            e = rng.choice(BIND)
            yield say(spell(e))
            ctx.count('bindings')
            n = rng.randrange(13)
            out, err = yield say(rng.choice(('reg r%d', 'r%d')) % n)
            if '0x%08x' % cpu.r[n].unsigned not in out: show('after-binding', printed=out, errors=err[-500:])
        elif k < .94:
            n, v = rng.randrange(13), core.value(rng)
            yield say('wreg r%d 0x%x' % (n, v))
            cpu.write_register('r%d' % n, v)
        else:
            a, v = int(g.address(), 16), rng.getrandbits(32)
            yield say('write32 0x%x 0x%x' % (a, v))
            cpu.write32(a, v)
    out, err = yield say('reg')
    got = parse_regs(out)
    want = dict((n, cpu.read_register(n).unsigned) for n in console.DUMPED)
    if got != want: show('registers', differs=dict((n, (got.get(n), v)) for n, v in want.items() if got.get(n) != v))
    for a in (0, RAM):
        out, err = yield say('read8 0x%x %d' % (a, 0x210))
        p = dump_problem(out, 8, a, cpu.read_memory_block(a, 0x210))
        if p: show('memory', problem=p)
    ctx.count('final_checks')


def machine(binary):
    """The CPU a session over this image starts with, set up by hand."""
    m = console.fresh(binary)
    cpu = cm.CpuModel()
    cpu.delegate = d = cm.Mock()
    for s, b in m.mem.regs:
        d.add_memory(s, len(b))
        d.write_memory_block(s, b)
    for k in (18, 17, 13, 15): d.write_register(k, m.f.r[k])
    return cpu


def run(ctx):
    rng = ctx.rng
    for n in range(ctx.n(1600, 50000)):
        binary = random_binary(rng)
        log = ['binary: %s' % (None if binary is None else '%d bytes %s' % (len(binary), binary[:8].hex()))]
        cpu = machine(binary or b'')
        s = console.open_session(ctx, user(ctx, cpu, log), binary, n)
        ctx.case(tuple(log), log[-25:])
        if s.died or s.code != 0 or s.unfinished:
            ctx.violate('session', {'session': log[-25:], 'died': s.died, 'code': s.code, 'unfinished': s.unfinished})
        if n < 2: ctx.sample({'session': log[:12]})
