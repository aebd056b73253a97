"""Scripts for the driver and the records it returns."""
import os
import re
import resource
import struct
import subprocess


def esc(s):
    if s is None:
        return '~'
    s.encode('latin-1')     # texts are bytes
    return '=' + ''.join(ch if 32 < ord(ch) < 127 and ch != '%' else '%%%02x' % ord(ch) for ch in s)


def unesc(f):
    if f == '~':
        return None
    return re.sub('%([0-9a-f]{2})', lambda m: chr(int(m.group(1), 16)), f[1:])


def op_line(op):
    return ' '.join([op[0]] + [esc(None if x is None else str(x)) for x in op[1:]])


def case_text(cid, ops):
    return 'CASE %s\n%s\nEND\n' % (cid, '\n'.join(op_line(o) for o in ops))


class V:
    """a value as returned: raw bits, and the string when it is one"""
    __slots__ = ('raw', 's')

    def __init__(self, raw, s=None):
        self.raw, self.s = raw, s

    def i64(self):
        return self.raw - (1 << 64) if self.raw >> 63 else self.raw

    def f(self):
        return struct.unpack('<d', struct.pack('<Q', self.raw))[0]

    def b(self):
        return self.raw & 0xff


class Rec:
    """one operation: fields, stdout, stderr, callback events; exited when the process ended in it; reads made from callbacks;
    what the call touched that is not its own"""
    __slots__ = ('fields', 'out', 'err', 'events', 'exited', 'peeks', 'touched')

    def __init__(self):
        self.fields, self.out, self.err, self.events, self.exited = None, '', '', [], None
        self.peeks, self.touched = [], []


class Res:
    def __init__(self, cid, code, sig, log, out, err):
        self.cid, self.code, self.sig, self.out, self.err = cid, code, sig, out, err
        self.ops = {}
        self.done = False
        po = pe = 0
        last = -1
        for line in log.split('\n'):
            if not line:
                continue
            t = line.split(' ')
            if t[0] == 'D':
                self.done = True
            elif t[0] == 'E' and len(t) > 4:
                r = self.ops.setdefault(int(t[1]), Rec())
                if t[2] == 'A':
                    r.events.append(('A', unesc(t[3]), tuple(int(x) for x in t[4:])))
                elif t[2] == 'Q':       # a reading call from inside a callback
                    r.peeks.append((unesc(t[3]), t[4], unesc(t[5]), t[6], unesc(t[7]), t[8:]))
                elif t[2] == 'W':
                    r.touched.append((unesc(t[3]), unesc(t[4])))
                else:
                    r.events.append((t[2], unesc(t[3]), unesc(t[4])))
            elif t[0] == 'O' and len(t) >= 4:
                i = int(t[1])
                r = self.ops.setdefault(i, Rec())
                o, e = int(t[2]), int(t[3])
                r.out, r.err = out[po:o], err[pe:e]
                po, pe = o, e
                last = i
                r.fields = t[4:]
                if r.fields and r.fields[0] == 'x':
                    r.exited = tuple(int(x) for x in r.fields[1:])
        self.last = last
        self.tail_out, self.tail_err = out[po:], err[pe:]

    def crash(self, nops):
        """None when the script ran to its end or the library ended the process by exit()"""
        if self.sig == 14:
            return 'HARNESS wall clock limit in call %d' % (self.last + 1)
        if self.sig == 27:
            return 'hang: no end within the cpu time limit in call %d' % (self.last + 1)
        if self.sig == 14:
            return 'hang: no end within the time limit in call %d' % (self.last + 1)
        if self.code == 93 and not self.sig:
            return 'memory use without end in call %d' % (self.last + 1)
        if self.sig == 25:
            return 'output without end in call %d' % (self.last + 1)
        if self.sig:
            return 'killed by signal %d in call %d' % (self.sig, self.last + 1)
        if self.code in (95, 96, 97):
            return 'HARNESS %d %s' % (self.code, self.err)
        m = re.search(r'(ERROR: AddressSanitizer: [^\n]*|runtime error: [^\n]*|WARNING: MemorySanitizer: [^\n]*)', self.err)
        if m:
            loc = re.findall(r'#\d+ 0x[0-9a-f]+ in (\S+) (\S*/source/\S+)', self.err)
            site = ('%s %s' % (loc[0][0], loc[0][1].split('/source/')[-1])) if loc else ''
            if not site:
                m2 = re.search(r'(\S*/source/\S+): runtime error', self.err)
                site = m2.group(1).split('/source/')[-1] if m2 else ''
            return 'sanitizer: %s [%s] in call %d' % (re.sub(r'0x[0-9a-f]+', '0x..', m.group(1))[:160], site, self.last + 1)
        if self.done:
            return None
        if self.last in self.ops and self.ops[self.last].exited is not None:
            return None
        return 'process ended with status %d in call %d' % (self.code, self.last + 1)

    # accessors for the fields of an operation
    def n(self, i, k=0):
        return int(self.ops[i].fields[k])

    def val(self, i):
        f = self.ops[i].fields
        if len(f) > 2:
            return V(int(f[0], 16), unesc(f[1]))
        return V(int(f[0], 16))


ENV = {'PATH': '/usr/bin:/bin', 'MALLOC_PERTURB_': '165',
       'ASAN_OPTIONS': 'detect_leaks=0:exitcode=99:abort_on_error=0:detect_stack_use_after_return=1:'
                       'max_allocation_size_mb=4096:allocator_may_return_null=1:check_printf=1:handle_abort=1:'
                       'strict_string_checks=0:fast_unwind_on_malloc=1:external_symbolizer_path=/usr/bin/llvm-symbolizer',
       'UBSAN_OPTIONS': 'print_stacktrace=1:exitcode=99',
       'MSAN_OPTIONS': 'exitcode=99:print_stats=0'}


def no_limit():
    hard = resource.getrlimit(resource.RLIMIT_AS)[1]
    resource.setrlimit(resource.RLIMIT_AS, (hard, hard))


def run_driver(exe, path, limit=10, chunk=100, timeout=3000):
    p = subprocess.run([exe, path, str(limit), str(chunk)], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ENV, timeout=timeout,
                       preexec_fn=no_limit)
    return p.returncode, p.stdout, p.stderr


def parse_output(data):
    out = []
    i = 0
    cov = None
    while i < len(data):
        j = data.index(b'\n', i)
        head = data[i:j].decode().split(' ')
        i = j + 1
        if head[0] == 'RES':
            l, o, e = int(head[4]), int(head[5]), int(head[6])
            log = data[i:i + l].decode('latin-1')
            i += l
            so = data[i:i + o].decode('latin-1')
            i += o
            se = data[i:i + e].decode('latin-1')
            i += e + 1
            out.append(Res(head[1], int(head[2]), int(head[3]), log, so, se))
        elif head[0] == 'COV':
            j = data.index(b'\n', i)
            cov = (int(head[2]), data[i:j].decode())
            i = j + 1
    return out, cov
