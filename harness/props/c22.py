"""C22: access histories over the simulated memory against a shadow memory."""
from core import cm, RegionMem
import core


def random_layout(rng):
    if rng.random() < .03:      # sizes real parts have
        out = rng.choice(([(0, 0x10000), (0x1fff8000, 0x10000)], [(0, 0x10000)], [(0, 0x10000), (0x1fff8000, 0x8100)],
                          [(0x08000000, 0x20000), (0x20000000, 0x5000)], [(0xffff0000, 0x10000)], [(0, 0x100000)],
                          [(0, 0x12345), (0x12345, 0x1000), (0x13346, 0x1001)], [(0x1fffe000, 0x2000), (0x20000000, 0x2000)]))
        return rng.sample(out, len(out))
    out, a = [], rng.choice((0, 0, rng.randrange(64), rng.getrandbits(28)))
    for _ in range(rng.randrange(1, 6) if rng.random() < .95 else rng.randrange(6, 24)):
        n = rng.choice((1, 2, 3, 4, 7, 8, 16, 33, rng.randrange(1, 200)))
        if a + n > 1 << 32: break
        out.append((a, n))
        a += n + rng.choice((0, 0, 1, 2, 3, 5, 64, rng.getrandbits(rng.randrange(1, 31))))
    if rng.random() < .25 and (not out or sum(out[-1]) <= (1 << 32) - 64):
        n = rng.choice((1, 4, 16, 64))
        out.append(((1 << 32) - n, n))
    rng.shuffle(out)
    return out or [(0, 16)]


def run(ctx):
    rng = ctx.rng
    for h in range(ctx.n(40000, 800000)):
        lay = random_layout(rng)
        mock = cm.Mock()
        cpu = cm.CpuModel()
        cpu.delegate = mock
        shadow = RegionMem([])
        todo = list(lay)
        for k in range(rng.randrange(1, len(todo) + 1)):
            s, n = todo.pop()
            mock.add_memory(s, n)
            shadow.regs.append((s, bytearray(n)))
        log = ['regions %s' % [(hex(s), len(b)) for s, b in shadow.regs]]
        kept = []           # blocks handed out or in earlier: later activity must not change either side

        def addr(n):
            s, b = rng.choice(shadow.regs)
            k = rng.random()
            if k < .55: a = s + rng.randrange(len(b))
            elif k < .8: a = s + len(b) + rng.randrange(-n - 1, 3)
            elif k < .95: a = s + rng.randrange(-n - 1, 3)
            else: a = rng.getrandbits(32)
            return max(0, min(a, (1 << 32) - n))

        for step in range(rng.randrange(5, 40) if rng.random() < .99 else 600 if rng.random() < .98 else 12000):
            op = rng.choice(('r', 'r', 'w', 'w', 'rb', 'wb', 'add', 'scribble'))
            direct = rng.random() < .4
            if op in 'rw':
                size = rng.choice((8, 16, 32))
                a = addr(size // 8)
                m = [shadow.mapped(a + k) for k in range(size // 8)]
                ctx.count('mapped' if all(m) else 'crossing' if any(m) else 'unmapped')
                aa = cm.bitstring(a, 32) if not direct and rng.random() < .3 else a
            if op == 'r':
                log.append('read%d %x' % (size, a))
                ctx.case(('r', size, tuple(m), a & 0xfff, len(shadow.regs)), log)
                if direct: got = mock.read_memory(a, size)
                else:
                    k = rng.random()
                    if k < .5: got = {8: cpu.read8, 16: cpu.read16, 32: cpu.read32}[size](aa)
                    elif size == 32 and k < .7: got = cpu.read_memory(aa)
                    else: got = cpu.read_memory(aa, size)
                    if got.width != size:
                        ctx.violate('read-width', {'history': log, 'width': got.width})
                want = sum(shadow.load(a + k) << (8 * k) for k in range(size // 8))
                if int(got) != want:
                    ctx.violate('read', {'history': log, 'got': hex(got), 'want': hex(want)})
                if not direct and rng.random() < .5:
                    got += rng.choice((1, 0x80, core.value(rng)))     # what a read returns is the caller's own
                    ctx.count('results_changed')
            elif op == 'w':
                v = core.value(rng) & ((1 << size) - 1)
                log.append('write%d %x = %x' % (size, a, v))
                ctx.case(('w', size, tuple(m), a & 0xfff, len(shadow.regs)), log)
                if direct: mock.write_memory(a, v, size)
                else:
                    k = rng.random()
                    if k < .3: vv = cm.bitstring(v, size)
                    elif k < .5: vv = cm.bitstring(v, rng.choice((max(v.bit_length(), 1), rng.randrange(max(v.bit_length(), 1), 65))))
                    else: vv = v
                    k = rng.random()
                    if k < .5: {8: cpu.write8, 16: cpu.write16, 32: cpu.write32}[size](aa, vv)
                    elif size == 32 and k < .7: cpu.write_memory(aa, vv)
                    else: cpu.write_memory(aa, vv, size)
                for k in range(size // 8): shadow.store(a + k, (v >> (8 * k)) & 255)
            elif op == 'rb':
                n = rng.choice((0, 1, 2, 4, 5, 16, rng.randrange(80), 300))
                a = addr(1)
                log.append('read block %x+%d' % (a, n))
                ctx.case(('rb', n, a & 0xfff, len(shadow.regs)), log)
                aa = cm.bitstring(a, 32) if not direct and rng.random() < .3 else a
                got = (mock if direct else cpu).read_memory_block(aa, n)
                want = None
                for s, b in shadow.regs:
                    if s <= a < s + len(b): want = bytearray(b[a - s:a - s + n])
                if want is None:
                    ctx.count('unmapped_blocks')
                    if got is not None and len(got):
                        ctx.violate('block-unmapped', {'history': log, 'got': bytes(got).hex()})
                else:
                    ctx.count('clipped_blocks' if len(want) < n else 'blocks')
                    if got is None or bytes(got) != bytes(want):
                        ctx.violate('block', {'history': log, 'got': None if got is None else bytes(got).hex(),
                                              'want': bytes(want).hex()})
                    else:
                        kept.append((got, bytes(want)))
            elif op == 'wb':
                n = rng.choice((0, 1, 2, 4, 5, 16, rng.randrange(80), 300))
                a = addr(1)
                data = bytearray(rng.getrandbits(8) for _ in range(n))
                arg = bytes(data) if rng.random() < .3 else data
                log.append('write block %x+%d' % (a, n))
                ctx.case(('wb', n, a & 0xfff, len(shadow.regs)), log)
                aa = cm.bitstring(a, 32) if not direct and rng.random() < .3 else a
                (mock if direct else cpu).write_memory_block(aa, arg)
                for s, b in shadow.regs:
                    if s <= a < s + len(b):
                        part = bytes(data)[:len(b) - (a - s)]
                        b[a - s:a - s + len(part)] = part
                        ctx.count('clipped_block_writes' if len(part) < n else 'block_writes')
                kept.append((arg, bytes(data)))
            elif op == 'add':
                if todo and rng.random() < .5:
                    s, n = todo.pop()
                    log.append('add region %x+%d' % (s, n))
                    mock.add_memory(s, n)
                    shadow.regs.append((s, bytearray(n)))
                    ctx.count('regions_added')
            else:
                if kept:
                    g, w = kept.pop(rng.randrange(len(kept)))
                    if bytes(g) != w:
                        ctx.violate('block-aliased', {'history': log, 'got': bytes(g).hex(), 'want': w.hex()})
                    if isinstance(g, bytearray):
                        for k in range(len(g)): g[k] ^= 0xa5
                        log.append('scribble over a transferred block')
                        ctx.count('scribbles')
            ctx.cur = log = log[:1] + log[-60:] if len(log) > 120 else log
        # the whole content, and nothing beyond the regions
        for s, b in shadow.regs:
            got = mock.read_memory_block(s, len(b) + 8)
            if got is None or bytes(got) != bytes(b):
                ctx.violate('content', {'history': log, 'region': hex(s), 'got': None if got is None else bytes(got).hex(),
                                        'want': bytes(b).hex()})
            for a in (s - 1, s + len(b)):
                if 0 <= a < 1 << 32 and not shadow.mapped(a) and mock.read_memory(a, 8) != 0:
                    ctx.violate('outside', {'history': log, 'address': hex(a)})
        for g, w in kept:
            if bytes(g) != w:
                ctx.violate('block-aliased', {'history': log, 'got': bytes(g).hex(), 'want': w.hex()})
        ctx.count('histories')
        if any(len(b) >= 0x5000 for s, b in shadow.regs): ctx.count('large_region_histories')
        if h < 2: ctx.sample({'history': log[:8]})

    # one memory under sustained use: every access is checked as it is made
    for h in range(ctx.n(24, 800)):
        base = rng.choice((0, 0x20000000, 0xfffff000, rng.getrandbits(30)))
        lay = [(base, 24), (base + 24, 9), (base + 33, 40), (base + 90, 30)]
        mock, cpu = cm.Mock(), cm.CpuModel()
        cpu.delegate = mock
        for s, n in rng.sample(lay, 4): mock.add_memory(s, n)
        mem = bytearray(130)
        ok = [any(s <= base + k < s + n for s, n in lay) for k in range(130)]
        dev = rng.choice((mock, cpu))
        for k in range(12000):
            size = rng.choice((1, 2, 4))
            o = rng.randrange(126)
            v = rng.getrandbits(32) & ((1 << 8 * size) - 1)
            dev.write_memory(base + o, v, 8 * size)
            for j in range(size):
                if ok[o + j]: mem[o + j] = (v >> 8 * j) & 255
            lo = max(0, o - rng.randrange(4))
            got = int(dev.read_memory(base + lo, 32)) | int(dev.read_memory(base + lo + 4, 32)) << 32 if lo <= 122 else None
            if got is not None and got != int.from_bytes(mem[lo:lo + 8], 'little'):
                ctx.violate('sustained', {'regions': lay, 'access': k, 'write': [hex(base + o), hex(v), 8 * size],
                                          'read at': hex(base + lo), 'got': hex(got),
                                          'want': hex(int.from_bytes(mem[lo:lo + 8], 'little'))})
            if not k & 255: ctx.case(('sustained', h, k), {'regions': lay, 'access': k})
        ctx.count('sustained_accesses', 36000)
