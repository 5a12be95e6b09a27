"""Drives the interactive simulator in process: a generator is the user, it yields lines and receives what was printed."""
import io, os, re, sys
from core import cm

PROMPT = '>>> '
_main = []


def module():
    if not _main:
        import cmdis.__main__ as m
        _main.append(m)
    return _main[0]


class Session(object):
    """What one session showed: its banner, exit code, and whether it ended while the user was still typing."""
    banner = ''
    code = None
    died = None
    unfinished = False


class Feed(object):
    """Standard input of the session; every line requested first reports the output since the last one."""
    encoding = 'utf-8'
    errors = 'strict'

    def __init__(self, script, out, err, s):
        self.script, self.out, self.err, self.s = script, out, err, s
        self.started = self.over = False
        self.pos = self.epos = 0
        self.fault = None

    def take(self):
        t = self.out.getvalue()
        new, self.pos = t[self.pos:], len(t)
        if new.endswith(PROMPT): new = new[:-len(PROMPT)]
        e = self.err.getvalue()
        self.stderr, self.epos = e[self.epos:], len(e)
        return new

    def readline(self, *a):
        new = self.take()
        try:
            if not self.started:
                self.started = True
                self.s.banner = new
                line = next(self.script)
            else:
                line = self.script.send((new, self.stderr))
        except StopIteration:
            self.over = True
            return ''
        except Exception as e:
            # the monitor's own verdict (or failure) ends the session and is passed on by session()
            self.over, self.fault = True, e
            return ''
        if line is None: raise KeyboardInterrupt()      # the user pressed Ctrl-C at the prompt
        return line + '\n'

    def fileno(self): raise io.UnsupportedOperation()
    def isatty(self): return False
    def flush(self): pass


def session(script, args):
    """Runs main() with the generator as its user."""
    s = Session()
    out, err = io.StringIO(), io.StringIO()
    feed = Feed(script, out, err, s)
    saved = sys.argv, sys.stdin, sys.stdout, sys.stderr
    sys.argv, sys.stdin, sys.stdout, sys.stderr = ['cmdis'] + args, feed, out, err
    try:
        module().main()
        s.code = 0
    except SystemExit as e:
        s.code = 0 if e.code is None else e.code
    except Exception as e:
        tb = sys.exc_info()[2]
        while tb.tb_next: tb = tb.tb_next
        s.died = '%s: %s (%s:%d)' % (type(e).__name__, e, tb.tb_frame.f_code.co_filename, tb.tb_lineno)
    finally:
        sys.argv, sys.stdin, sys.stdout, sys.stderr = saved
    s.last = feed.take()
    s.stderr = feed.stderr
    s.unfinished = not feed.over
    script.close()
    if feed.fault is not None: raise feed.fault
    return s


DUMP = re.compile(r'^([0-9a-f]{8}): +((?:[0-9a-f]+ *)*)$')
INSN = re.compile(r'^0x([0-9a-f]{8}):([ *]) (.*)$')
REG = re.compile(r'(\w+): 0x([0-9a-f]{8})')
DUMPED = ['r%d' % k for k in range(13)] + ['sp', 'lr', 'pc', 'msp', 'psp', 'xpsr', 'control', 'primask', 'faultmask',
                                           'basepri']


def parse_dump(text, width):
    """[(label, [elements])] of the hex dump lines; None when an element has the wrong number of digits."""
    out = []
    for l in text.split('\n'):
        m = DUMP.match(l.rstrip())
        if m:
            els = m.group(2).split()
            if any(len(e) != width // 4 for e in els): return None
            out.append((int(m.group(1), 16), [int(e, 16) for e in els]))
    return out


def dump_problem(text, width, addr, data):
    """Why a dump does not show `data` (bytes) from addr in elements of that width, or None."""
    lines = parse_dump(text, width)
    if lines is None: return 'elements have the wrong width'
    n = width // 8
    got = bytearray()
    for label, els in lines:
        if label != addr + len(got): return 'line labelled %08x starts at %08x' % (label, addr + len(got))
        for e in els:
            got += bytearray((e >> (8 * k)) & 255 for k in range(n))
    if got != data: return 'shows %s, stored %s' % (bytes(got).hex(), bytes(data).hex())


def parse_regs(text):
    return dict((a, int(b, 16)) for a, b in REG.findall(text))


class Model(object):
    """The machine a session should be showing: register file and memory."""

    def __init__(self, regfile, mem):
        self.f, self.mem = regfile, mem

    def block(self, a, n):
        for s, b in self.mem.regs:
            if s <= a < s + len(b): return bytearray(b[a - s:a - s + n])

    def word(self, a):
        b = self.block(a, 4)
        return None if b is None or len(b) < 4 else b[0] | b[1] << 8 | b[2] << 16 | b[3] << 24

    def write(self, a, data):
        for s, b in self.mem.regs:
            if s <= a < s + len(b):
                part = bytes(data)[:len(b) - (a - s)]
                b[a - s:a - s + len(part)] = part

    def reset(self):
        pc, sp = self.word(4), self.word(0)
        if self.mem.mapped(pc): self.f.put(15, pc)
        if self.mem.mapped(sp - 4): self.f.put(13, sp)


RAM = 0x1fff8000


def fresh(binary):
    from core import RegionMem
    from props.c23 import File
    mem = RegionMem([])
    flash = bytearray(max(0x10000, len(binary)))
    flash[:len(binary)] = binary
    mem.regs.append((0, flash))
    sp = flash[0] | flash[1] << 8 | flash[2] << 16 | flash[3] << 24
    mem.regs.append((RAM, bytearray(max(sp - RAM, 0x10000) if sp else 0x10000)))
    m = Model(File(), mem)
    m.reset()
    return m


def random_binary(rng, body=None):
    """A binary image (or None): vector table, then body."""
    k = rng.random()
    if k < .2 and body is None: return None
    sp = rng.choice((0, RAM + 0x1000, RAM + 0x10000, RAM + 0x10000, 0x20000000, 0x20001000, 0x20008100, 0x10000, 0x8000))
    pc = rng.choice((9, 0x101, 0x100, 8, RAM + 0x41, 0x40000001, 0))
    b = bytearray()
    for v in (sp, pc): b += bytearray((v >> (8 * i)) & 255 for i in range(4))
    if body is not None: return bytes(b) + bytes(body)
    n = rng.choice((0, 0, 4, 100, 1000, 1000, 0x10100 if rng.random() < .1 else 60))
    b += bytearray(rng.getrandbits(8) for _ in range(n))
    if rng.random() < .1: b = b[:rng.choice((1, 2, 3, 5))]
    return bytes(b)


def open_session(ctx, script, binary, n):
    args = []
    if binary is not None:
        import os
        path = os.path.join(ctx.scratch, 'image.bin')
        with open(path, 'wb') as f: f.write(binary)
        args = [path]
    return session(script, args)
