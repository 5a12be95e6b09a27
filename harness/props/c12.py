"""C12: instruction objects are constants over any history of decode, format and execute."""
import json
import arm, core, pristine
from core import cm, Machine, random_state, step_compare, describe, encodings, real_decode, tobytes, hexw, pc_operand


class Live(object):
    def __init__(self, h1, h2, i, addr, obj, text):
        self.h1, self.h2, self.i, self.addr, self.obj, self.text = h1, h2, i, addr, obj, text
        self.execs = self.formats = 0


def snapshot(obj, fmt):
    return (fmt.format(obj), obj.mnemonic, obj.size, bytes(obj.bytes), obj.address)


def run(ctx):
    rng = ctx.rng
    enc = encodings()
    want = lambda i: not pc_operand(i)
    pick = enc.picker(want, rng)
    asked = 0
    for history in range(ctx.n(2400, 60000)):
        machines = [Machine('sparse', rng), Machine('mock', rng)]
        fmts = [cm.Formatter(machines[0].cpu), cm.Formatter(machines[1].cpu), cm.Formatter(None)]
        live, trace = [], []
        words = []
        for step in range(rng.choice((20, 40, 80))):
            k = rng.random()
            if len(live) < 3 or k < .2:
                if words and rng.random() < .4:
                    h1, h2, i = rng.choice(words)
                else:
                    h1, h2, i = pick()
                    words.append((h1, h2, i))
                addr = core.even_pc(rng) if rng.random() < .7 or not live else rng.choice(live).addr
                obj = real_decode(tobytes(h1, h2), addr)
                trace.append('decode %s @%x' % (hexw(h1, h2), addr))
                if obj in (arm.UNDEF, arm.UNPRED):
                    ctx.case(None, {'trace': trace[-20:]})
                    ctx.count('not_decoded')
                    continue
                l = Live(h1, h2, i, addr, obj, snapshot(obj, rng.choice(fmts)))
                twin = [x for x in live if x.h1 == h1 and x.h2 == h2 and x.addr == addr]
                if twin and twin[0].text != l.text:
                    ctx.violate('equal-decodes-differ', {'trace': trace[-20:], 'a': twin[0].text, 'b': l.text})
                live.append(l)
                ctx.count('decodes')
            elif k < .45:
                l = rng.choice(live)
                t = snapshot(l.obj, rng.choice(fmts))
                l.formats += 1
                trace.append('format ' + l.text[0])
                ctx.case(('f', l.h1, l.h2, l.execs > 0), {'trace': trace[-20:]})
                ctx.count('formats')
                if t != l.text:
                    ctx.violate('changed', {'trace': trace[-20:], 'first': l.text, 'now': t})
            elif k < .92:
                l = rng.choice(live)
                m = rng.choice(machines)
                s = random_state(rng, m.mem0, l.i)
                if rng.random() < .5: s.r[15] = l.addr
                d = describe(l.h1, l.h2, s)
                before = s.mem.copy()
                m.load_state(s)
                trace.append('execute ' + l.text[0])
                ctx.case(('x', l.h1, l.h2, l.execs, l.formats > 0), {'trace': trace[-20:], 'state': d})
                o = step_compare(m, l.obj, l.i, s)
                l.execs += 1
                ctx.count('executions')
                if l.execs > 1: ctx.count('re_executions')
                bad = o.all()
                if bad:
                    # Wrong in a process without any history too: a defect of the instruction, not of its constancy.
                    job = dict(pristine.memory(m.kind, before), kind=m.kind, h1=l.h1, h2=l.h2, addr=l.addr, state=d)
                    alone = pristine.ask(job, ctx.src) if asked < 40 else bad
                    asked += 1
                    if alone is None or json.loads(json.dumps(bad)) == alone or asked > 40:
                        ctx.count('wrong_without_history')
                    else:
                        ctx.violate('effect-depends-on-history', {'trace': trace[-20:], 'state': d, 'diffs': bad,
                                                                  'diffs without history': alone})
                    break
            elif k < .96:
                l = rng.choice(live)
                b = l.obj.bytes
                if len(b): b[0] ^= 0xff         # a caller may scribble on what it was handed
                trace.append('scribble ' + l.text[0])
                if bytes(l.obj.bytes) != l.text[3]:
                    ctx.violate('bytes-aliased', {'trace': trace[-20:]})
            else:
                l = rng.choice(live)            # re-addressing one object must not move another
                l.addr = core.even_pc(rng)
                l.obj.address = l.addr
                l.text = snapshot(l.obj, rng.choice(fmts))
                trace.append('address %s = %x' % (hexw(l.h1, l.h2), l.addr))
                if l.text[4] != l.addr:
                    ctx.violate('address', {'trace': trace[-20:]})
                twin = real_decode(tobytes(l.h1, l.h2), l.addr)
                if snapshot(twin, rng.choice(fmts)) != l.text:
                    ctx.violate('text-after-readdress', {'trace': trace[-20:], 'text': l.text})
        for l in live:
            t = snapshot(l.obj, fmts[0])
            ctx.case(('end', l.h1, l.h2, l.execs, l.formats), {'trace': trace[-20:]})
            if t != l.text:
                ctx.violate('changed', {'trace': trace[-20:], 'first': l.text, 'now': t})
        if history < 2:
            ctx.sample({'trace': trace[:12]})


    # worn objects: after thousands of executions and formattings nothing has changed
    for n in range(ctx.n(320, 6000)):
        h1, h2, i = pick()
        addr = core.even_pc(rng)
        m, worn = Machine(rng.choice(('sparse', 'mock')), rng), Machine('mock', rng)
        worn.load_state(random_state(rng, worn.mem0, i))
        obj = real_decode(tobytes(h1, h2), addr)
        if obj in (arm.UNDEF, arm.UNPRED): continue
        fmt = cm.Formatter(rng.choice((None, m.cpu)))
        text = snapshot(obj, fmt)
        s = random_state(rng, m.mem0, i)
        s.r[15] = addr
        d = describe(h1, h2, s)
        what = {'encoding': hexw(h1, h2), 'state': d}

        def once(o):
            t = s.copy()
            m.load_state(t)
            return step_compare(m, o, i, t).all()
        first = once(obj)
        if first:
            ctx.count('wrong_without_history')
            continue
        times = rng.choice((40, 300, 1100, 3000))
        ctx.case(('worn', h1, h2, times), what)
        for k in range(times):
            if k % 50 == 0: del worn.rec.log[:]
            obj.execute(worn.cpu)
            if k % 200 == 0: fmt.format(obj)
        if times > 1000 and rng.random() < .3:
            for k in range(times): fmt.format(obj)
        now = once(obj)
        again = once(real_decode(tobytes(h1, h2), addr))
        if now != first or again != first:
            ctx.violate('worn', dict(what, executions=times, first=first, now=now, decoded_again=again))
        if snapshot(obj, fmt) != text:
            ctx.violate('changed', dict(what, first=text, now=snapshot(obj, fmt)))
        ctx.count('worn_objects')
        ctx.count('worn_executions', times)
