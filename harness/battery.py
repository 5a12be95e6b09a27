"""What C35 has the package do, part by part, as plain data. The part's modules must have been imported; no other is."""
import random, struct, sys

PARTS = {'utilities': ('utilities',), 'bitstring': ('bitstring',), 'registers': ('registers',), 'helpers': ('helpers', 'bitstring'),
         'formatter': ('formatter', 'bitstring', 'helpers'), 'mock_cpu': ('mock_cpu', 'registers'), 'model': ('model', 'bitstring'),
         'decoder': ('decoder', 'bitstring'), 'disasm': ('disasm', 'decoder', 'formatter', 'model', 'mock_cpu'),
         'machine': ('model', 'mock_cpu')}


def mod(name): return sys.modules['cmdis.' + name]


def bs(b): return (b.width, b.unsigned)


def utilities(rng, words):
    u = mod('utilities')
    out = []
    for _ in range(12):
        v, n = rng.getrandbits(32), rng.randrange(8)
        bl = [rng.randrange(256) for _ in range(4 * n)]
        lsb = rng.randrange(32)
        msb = rng.randrange(lsb, 32)
        out += [u.hamming_weight(v), u.byteListToU32leList(bl), u.byteListToU16leList(bl), u.u32leListToByteList([v, v >> 3]),
                u.u16leListToByteList([v & 0xffff]), u.bfx(v, msb, lsb), u.bfi(v, 5, msb, lsb), u.bitmask((msb, lsb)),
                u.invert32(v), list(u.le32_to_bytes(v)), u.bytes_to_le32(bl + [1, 2, 3, 4]),
                u.float32beToU32be(u.u32BEToFloat32BE(v & 0xbf7fffff))]
    return out


def bitstring(rng, words):
    m = mod('bitstring')
    B = m.bitstring
    out = [bs(m.bit0), bs(m.bit1), bs(m.zeros(3)), bs(m.ones(5))]
    for _ in range(12):
        w, x = rng.randrange(2, 40), rng.randrange(2, 40)
        a, b = B(rng.getrandbits(w), w), B(rng.getrandbits(x), x)
        i = rng.randrange(w)
        j = rng.randrange(i, w + 1)
        out += [bs(a + b), bs(a - b), bs(a * b), bs(a % b), bs(a & b), bs(a | b), bs(a ^ b), bs(~a), bs(a[i]), bs(a[i:j]),
                bs(a << 3), bs(a >> 2), bs(a.sign_extend(64)), bs(a.zero_extend(64)), bs(a.reversed), a.signed, a == b, a < b, a >= b,
                repr(a), a.base_string(16), list(a.bytes), a.bit_count(), a.lowest_set_bit(), a.highest_set_bit(), list(a),
                hash(a) == hash(B(a)), bool(a), int(a), len(a), bs(B(repr(a).split('b')[1]))]
        c = B(a)
        c[i:j] = 0
        c[i] = 1
        out += [bs(c), bs(a)]
    return out


def registers(rng, words):
    m = mod('registers')
    names = sorted(m.CORE_REGISTER)
    out = [sorted((k, v) for k, v in m.CORE_REGISTER.items())]
    for _ in range(12):
        n = rng.choice(names)
        out.append((n, m.register_name_to_index(n.upper()), m.register_name_to_index(m.CORE_REGISTER[n])))
    out.append(m.register_name_to_index('nothing'))      # logged; the probe has silenced that
    return out


def helpers(rng, words):
    m, B = mod('helpers'), mod('bitstring').bitstring
    kinds = [m.SRType.SRType_None, m.SRType.SRType_LSL, m.SRType.SRType_LSR, m.SRType.SRType_ASR, m.SRType.SRType_ROR]
    out = []
    for _ in range(12):
        x, y, c = B(rng.getrandbits(32), 32), B(rng.getrandbits(32), 32), B(rng.randrange(2), 1)
        t, n = rng.choice(kinds), rng.randrange(1, 34)
        out += [[bs(v) for v in m.AddWithCarry(x, y, c)], [bs(v) for v in m.Shift_C(x, t, n, c)], bs(m.Shift(x, t, n, c)),
                bs(m.Align(x, 4)), [bs(v) for v in m.ThumbExpandImm_C(B(rng.getrandbits(12), 12), c)],
                [bs(v) for v in m.RRX_C(x, c)]]
        t, n = m.DecodeImmShift(B(rng.randrange(4), 2), B(rng.randrange(32), 5))
        out.append((t.name, n))
    return out


def formatter(rng, words):
    f, B, h = mod('formatter'), mod('bitstring').bitstring, mod('helpers')

    class Insn(object):
        mnemonic, address = 'op', 0x1000
        bytes = bytearray(b'\x01\x02\x03\x04')
    out = []
    for _ in range(12):
        i = Insn()
        i.address = rng.getrandbits(31) * 2
        i.operands = [f.RegisterOperand(rng.randrange(16), rng.random() < .5), f.ReglistOperand(B(rng.getrandbits(16), 16)),
                      f.ImmediateOperand(rng.randrange(-20, 300), True), f.LabelOperand(rng.randrange(-4096, 4096), 4),
                      f.ShiftRotateOperand(h.SRType.SRType_ASR, rng.randrange(1, 33)), f.BarrierOperand(rng.randrange(16)),
                      f.MemoryAccessOperand(f.RegisterOperand(13), f.ImmediateOperand(rng.randrange(200))), f.CpsOperand(True, False),
                      f.SpecialRegisterOperand(B(rng.choice((0, 3, 8, 20)), 8))]
        rng.shuffle(i.operands)
        out.append(f.Formatter(None).format(i))
    return out


def mock_cpu(rng, words):
    m, R = mod('mock_cpu'), mod('registers').CORE_REGISTER
    d = m.MockCpuModelDelegate()
    d.add_memory(0x100, 64)
    names = sorted(n for n in R)
    for _ in range(20):
        d.write_register(R[rng.choice(names)], rng.getrandbits(32))
        d.write_memory(rng.randrange(0xf8, 0x144), rng.getrandbits(32), rng.choice((8, 16, 32)))
    d.write_memory_block(0x130, bytearray(range(30)))
    return [[d.read_register(R[n]) for n in names], [d.read_memory(a, s) for a in range(0xf8, 0x148, 3) for s in (8, 16, 32)],
            list(d.read_memory_block(0x102, 50))]


def machine(rng, words):
    cpu = mod('model').CpuModel()
    out = [cpu.read_register('r0'), cpu.read_memory(0)]
    d = cpu.delegate = mod('mock_cpu').MockCpuModelDelegate()
    d.add_memory(0, 64)
    for n in range(13): cpu.r[n] = rng.getrandbits(32)
    cpu.sp, cpu.pc, cpu.lr = rng.getrandbits(32), rng.getrandbits(32), rng.getrandbits(32)
    for _ in range(8):
        setattr(cpu.apsr, rng.choice('nzcv'), rng.randrange(2))
        cpu.write_memory(rng.randrange(60), rng.getrandbits(32), rng.choice((8, 16, 32)))
    return out + [[bs(cpu.r[n]) for n in range(16)], bs(cpu.xpsr), bs(cpu.ipsr), bs(cpu.control), cpu.is_privileged, cpu.mode.name,
                  [bs(cpu.read32(a)) for a in range(0, 60, 4)], list(cpu.read_memory_block(3, 20)), repr(cpu).split(' ', 1)[1]]


def model(rng, words):
    m = mod('model')

    class D(m.CpuModelDelegate):
        def __init__(self): self.log = []
        def read_register(self, reg): self.log.append(('r', reg)); return reg * 3
        def write_register(self, reg, value): self.log.append(('w', reg, value))
        def read_memory(self, addr, size=32): self.log.append(('rm', addr, size)); return addr & 255
        def write_memory(self, addr, value, size=32): self.log.append(('wm', addr, value, size))
    cpu = m.CpuModel()
    d = cpu.delegate = D()
    for _ in range(10):
        k, v = rng.randrange(16), rng.getrandbits(32)
        cpu.r[k] = v
        cpu.write_register('lr', mod('bitstring').bitstring(v))
        cpu.read8(v), cpu.write16(v, k), cpu.r[k], cpu.apsr.z, cpu.s[k]
    return d.log


def decoder(rng, words):
    m = mod('decoder')
    out = [m.parse_spec(s) for s in ('010 Rm(3) 1 D imm8(8)', 'x=01 11 Rd(4) S 000 0000')]
    t = m.DecoderTree()
    got = []

    def handler(i, **kw): got.append(sorted((k, bs(v)) for k, v in kw.items()))
    t.add_decoder(m.Decoder(handler, 'one', m.Instruction, '0000 imm4(4) Rd(8)'))
    t.add_decoder(m.Decoder(handler, 'two', m.Instruction, '0000 0001 Rd(8)', flag=3))
    t.add_decoder(m.Decoder(handler, 'wide', m.Instruction, '11110 imm11(11)', '10 Rn(4) x(10)'))
    t.build()
    for _ in range(12):
        data = bytearray(rng.choice(([rng.randrange(256), rng.choice((0, 1, 2, 16))], [1, 0xf0 + rng.randrange(8), 7, 0x80 + rng.randrange(64)])))
        try:
            i = t.decode(data, 0x40)
            out.append((i.mnemonic, i.size, i.address, list(i.bytes), getattr(i, 'flag', None)))
        except m.UndefinedInstructionError:
            out.append('undefined')
    return [repr(out), got]


def disasm(rng, words):
    dm, f, ds = mod('decoder'), mod('formatter'), mod('disasm')
    out = []
    d = mod('mock_cpu').MockCpuModelDelegate()
    d.add_memory(0x20000000, 256)
    cpu = mod('model').CpuModel()
    cpu.delegate = d
    for h1, h2 in words:
        data = struct.pack('<HH', h1, h2)
        address = rng.getrandbits(30) * 2
        try:
            i = ds.decoder.decode(bytearray(data), address)
        except dm.UndefinedInstructionError:
            out.append('undefined')
            continue
        except dm.UnpredictableError:
            out.append('unpredictable')
            continue
        for n in range(15): d.write_register(n, rng.choice((0x20000000 + 4 * rng.randrange(60), rng.getrandbits(32))))
        d.write_register(16, rng.getrandbits(4) << 28 | 0x01000000)
        d.write_register(15, address)
        text = f.Formatter(cpu).format(i)
        cpu.execute([i])
        out.append((i.mnemonic, i.size, text, [d.read_register(n) for n in range(17)], bytes(d.read_memory_block(0x20000000, 256)).hex()))
    stream = []
    try:
        for i in ds.Disassembler().disasm(bytearray(b''.join(struct.pack('<HH', *w) for w in words)), 0x1000):
            stream.append((i.address, i.mnemonic))
    except (dm.UndefinedInstructionError, dm.UnpredictableError) as e:
        stream.append(type(e).__name__)
    return [out, stream]


def run(part, seed, words):
    return repr(globals()[part](random.Random(seed), words))
