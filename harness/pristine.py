"""Executes one instruction once, in a process with no history, and prints how it differs from the model."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import arm, core


def diffs(job):
    m = core.Machine('mock', core.random.Random(0), layout=[]) if job['kind'] == 'mock' else \
        core.Machine('sparse', core.random.Random(0), salt=job['salt'])
    if job['kind'] == 'mock':
        for s, h in job['regions']:
            b = bytearray.fromhex(h)
            m.backend.add_memory(s, len(b))
            m.backend.write_memory_block(s, bytearray(b))
            m.mem0.regs.append((s, b))
    else:
        for a, v in job['bytes']:
            m.mem0.store(a, v)
            m.backend.mem.store(a, v)
    s = core.State(m.mem0)
    d = job['state']
    s.r = [int(x, 16) for x in d['r']]
    s.xpsr, s.msp, s.psp = int(d['xpsr'], 16), int(d['msp'], 16), int(d['psp'], 16)
    for k in ('control', 'primask', 'faultmask', 'basepri', 'handler', 'in_it', 'dsp', 'fp'):
        setattr(s, k, d[k])
    m.load_state(s)
    obj = core.real_decode(core.tobytes(job['h1'], job['h2']), job['addr'])
    i = arm.decode(job['h1'], job['h2'])
    return core.step_compare(m, obj, i, s).all()


def ask(job, src):
    """The differences seen in a fresh process, or None when it raised."""
    import subprocess
    p = subprocess.Popen([sys.executable, os.path.abspath(__file__), src], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                         stderr=subprocess.PIPE)
    out = p.communicate(json.dumps(job).encode())[0]
    return json.loads(out.decode()) if p.returncode == 0 else None


def memory(kind, mem):
    if kind == 'mock':
        return {'regions': [(s, bytes(b).hex()) for s, b in mem.regs]}
    return {'salt': mem.salt, 'bytes': list(mem.d.items())}


if __name__ == '__main__':
    core.bind(sys.argv[1])
    print(json.dumps(diffs(json.load(sys.stdin))))
