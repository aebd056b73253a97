"""Online monitor over the recorded calls of one script: replays the script on the reference model and
compares every observable the property at hand speaks about."""
from .model import Parse, E, State, Result
from .proto import Rec
from .schema import ARRAYS, MAPS, VARIADIC, COLL, opt_name

ACC = {'NO_VALUE': E['NO_VALUE'], 'INVALID_TYPE': E['INVALID_TYPE'], 'INVALID_INDEX': E['INVALID_INDEX'], 'INVALID_KEY': E['INVALID_KEY']}


def path_of(schema, levels, chain, lv, name):
    """the unambiguous path of an option on the k-th selected level"""
    k = levels.index(lv)
    if k == 0:
        return '.' + name
    return '.'.join([c['name'] for c in chain[:k]] + [name])


def kind_of(t, h=None):
    if h:
        return 's' if h['mode'] != 'I' else '-'
    return 's' if t in ('str', 'astr', 'mstr', 'vstr') else '-'


def observe(schema, r, c=0, what='GSK', only=None):
    """calls reading back every option of the root and of the selected commands"""
    ops = []
    for lv in r.levels:
        for st in r.state[lv]:
            e = st.e
            if e['k'] not in ('opt', 'pos') or (only and opt_name(e) not in only):
                continue
            p = path_of(schema, r.levels, r.chain, lv, opt_name(e))
            kd = kind_of(e['t'], e.get('handler'))
            for w in what:
                if w == 'G':
                    if e['t'] in ARRAYS or e['t'] in VARIADIC:
                        ops.append(['T', c, p, kd])
                    elif e['t'] in MAPS:
                        ops.append(['Y', c, p, kd])
                    else:
                        ops.append(['G', c, p, kd])
                else:
                    ops.append([w, c, p])
    return ops


def show(x):
    return repr(x) if len(repr(x)) < 200 else repr(x)[:200] + '...'


def dec(raw, s, t):
    """python value of a raw element"""
    if t in ('astr', 'mstr', 'vstr', 'str'):
        return s
    if t in ('afloat', 'mfloat', 'vfloat', 'float'):
        return proto_f(raw)
    if t in ('mbool', 'bool', 'flag'):
        return bool(raw & 0xff)
    return raw - (1 << 64) if raw >> 63 else raw


def proto_f(raw):
    import struct
    return struct.unpack('<d', struct.pack('<Q', raw))[0]


def same(a, b):
    if isinstance(a, float) and isinstance(b, float):
        return a == b or (a != a and b != b)
    return a == b


def passes(fields, t):
    """the two passes of an iterator record"""
    out, cur, i = [], None, 0
    from .proto import unesc
    ended = []
    is_map = t in MAPS
    is_str = t in ('astr', 'mstr', 'vstr')
    while i < len(fields):
        f = fields[i]
        if f == '(':
            cur = []
        elif f in (')', '!'):
            out.append(cur)
            ended.append(f == ')')
        else:
            key = None
            if is_map:
                key = unesc(f)
                i += 1
                f = fields[i]
            raw = int(f, 16)
            s = None
            if is_str:
                i += 1
                s = unesc(fields[i])
            v = dec(raw, s, t)
            cur.append((key, v) if is_map else v)
        i += 1
    return out, ended


class Sim:
    """facets: subset of
    status  ok / error / exit, as the model says
    code    the error status value
    msg     the message names what the model says
    quiet   a successful parse writes nothing
    value set count order   what the options read back as
    events  user callbacks during parsing
    release custom release callbacks
    live    heap blocks held by the library
    exec    argus_exec
    peek    reads made from inside callbacks
    path    resolution and accessor codes
    """

    def __init__(self, case, ress, ctx, facets, run=0):
        self.case, self.ctx, self.f = case, ctx, set(facets)
        self.ops = case['runs'][run]
        self.res = ress[run]
        self.run_no = run
        self.bad = []
        self.c = {}
        self.env = {}
        self.results = []
        self.monitoring = False

    def problem(self, key, i, text):
        self.bad.append((key, 'call %d %s: %s' % (i, show(self.ops[i]), text)))

    def go(self):
        res = self.res
        crash = res.crash(len(self.ops))
        if crash:
            self.bad.append(('crash', crash))
            return self
        for i, op in enumerate(self.ops):
            rec = res.ops.get(i)
            if rec is None or rec.fields is None:
                if not self.bad:
                    self.bad.append(('crash', 'no record of call %d %s' % (i, show(op))))
                break
            if not getattr(self, 'op_' + op[0], self.op_other)(i, op, rec):
                break
        return self

    def op_other(self, i, op, rec):
        return rec.exited is None

    def op_I(self, i, op, rec):
        self.c[op[1]] = {'schema': self.ctx.schemas[op[2]], 'prefix': None, 'desc': None, 'r': None, 'prog': op[3], 'live': False,
                         'ver': op[4] if len(op) > 4 else None}
        return rec.exited is None

    def op_C(self, i, op, rec):
        self.c[op[1]][op[2]] = op[3]
        return True

    def op_E(self, i, op, rec):
        self.env[op[1]] = op[2]
        return True

    def op_U(self, i, op, rec):
        self.env.pop(op[1], None)
        return True

    def op_m(self, i, op, rec):
        self.monitoring = True
        return True

    def op_A(self, i, op, rec):
        c = self.c[op[1]]
        r = Parse(c['schema'], c['prefix']).run(op[3:], self.env)
        self.results.append(r)
        c['r'] = r
        c['said'] = {}
        self.ctx.see('parse ' + r.kind)
        if r.kind == 'skip':
            return False
        exited = rec.exited is not None
        if r.kind == 'exit':
            if not exited:
                if 'status' in self.f:
                    self.problem('status', i, 'should end the process (%s) but returned %s' % (r.exit_kind, rec.fields[0]))
                return False
            if 'status' in self.f and self.res.code != 0:
                self.problem('status', i, 'exit status %d after %s' % (self.res.code, r.exit_kind))
            if 'live' in self.f and self.monitoring and rec.exited[0] != 0:
                self.problem('live', i, '%d heap blocks held at exit' % rec.exited[0])
            self.events(i, rec, r)
            return False
        if exited:
            if 'status' in self.f:
                self.problem('status', i, 'process ended with status %d, expected %s' % (self.res.code, r.kind))
            return False
        rc = int(rec.fields[0])
        if r.kind == 'ok':
            c['live'] = True
            if rc != 0:
                if 'status' in self.f:
                    self.problem('status', i, 'refused with %d (%s), expected success' % (rc, rec.err[:200].strip()))
                return False
            if 'quiet' in self.f and (rec.out or rec.err):
                self.problem('quiet', i, 'successful parse wrote %s' % show(rec.out + rec.err))
        else:
            if rc == 0:
                if 'status' in self.f:
                    self.problem('status', i, 'accepted, expected refusal (%s)' % (r.why + ' ' + ' '.join(r.frags)))
                return False
            codes = {r.code} | {f.code for f in r.errors}
            if 'code' in self.f and rc not in codes:
                self.problem('code', i, 'status %d, expected %s (%s)' % (rc, sorted(codes), r.why))
            if 'msg' in self.f and rc == r.code:
                alts = [f.frags for f in r.errors if f.code == rc] or [r.frags]
                if not any(all(x in rec.err for x in fr) for fr in alts):
                    self.problem('msg', i, 'message %s does not name %s' % (show(rec.err), show(alts)))
        self.events(i, rec, r)
        self.peeked(i, op, rec)
        if r.kind == 'err':
            c['said'] = {}      # the values have been released since
        return True

    def op_R(self, i, op, rec):
        self.peeked(i, op, rec)
        return rec.exited is None

    def peeked(self, i, op, rec):
        """reads made from inside callbacks, judged as if the script had made them"""
        if 'peek' not in self.f:
            return
        for cb, code, name, kind, arg, fields in rec.peeks:
            self.ctx.see('reads from callbacks')
            q = Rec()
            q.fields = fields
            n = len(self.bad)
            getattr(self, 'op_' + code)(i, [code, op[1], name] + ([arg] if code in 'XM' else []) + [kind], q)
            self.bad[n:] = [('callback-' + k, '%s, asked %s %s from callback %s' % (t, code, name, cb)) for k, t in self.bad[n:]]

    def events(self, i, rec, r):
        if 'events' in self.f:
            want = [e for e in r.events if e[0] != 'F']
            got = [e for e in rec.events if e[0] != 'F']
            self.ctx.see('callback events', len(got))
            if len(r.errors) <= 1 and want != got:
                self.problem('events', i, 'callbacks %s, expected %s' % (show(got), show(want)))
        if 'release' in self.f:
            want = sorted([e for e in r.events if e[0] == 'F'] + (self.owned(r) if r.kind != 'ok' else []), key=str)
            got = sorted([e for e in rec.events if e[0] == 'F'], key=str)
            self.ctx.see('release events', len(got))
            if want != got:
                self.problem('release', i, 'released %s, expected %s' % (show(got), show(want)))

    @staticmethod
    def owned(r):
        out = []
        for lv in r.levels:
            for st in r.state[lv]:
                if st.owned:
                    out.append(('F', st.e.get('free'), st.value))
        return out

    def op_F(self, i, op, rec):
        c = self.c[op[1]]
        c['said'] = {}
        if 'release' in self.f:
            want = sorted(self.owned(c['r']) if c['r'] is not None and c['live'] else [], key=str)
            got = sorted([e for e in rec.events if e[0] == 'F'], key=str)
            self.ctx.see('release events', len(got))
            if want != got:
                self.problem('release', i, 'released %s, expected %s' % (show(got), show(want)))
        c['live'] = False
        c['freed'] = True
        if c['r'] is not None:
            old = c['r']
            c['r'] = Result()
            c['r'].kind, c['r'].chain, c['r'].levels = 'freed', old.chain, old.levels
            c['r'].state = {k: [State(st.e) for st in lv] for k, lv in old.state.items()}
        return True

    def op_q(self, i, op, rec):
        held = int(rec.fields[0])
        if 'live' in self.f and not any(c['live'] for c in self.c.values()):
            self.ctx.see('blocks obtained', int(rec.fields[1]))
            if held:
                self.problem('live', i, '%d heap blocks still held (of %s obtained)' % (held, rec.fields[1]))
        return True

    # --- reading
    def st(self, op):
        c = self.c[op[1]]
        r = c['r']
        if r is None:
            return None
        p = Parse(c['schema'], c['prefix'])
        p.r = r
        return p.resolve(op[2])

    def op_G(self, i, op, rec):
        st = self.st(op)
        raw = int(rec.fields[0], 16)
        code = int(rec.fields[-1])
        if st is None or st.e['k'] in ('help', 'version', 'sub'):
            if st is None and 'path' in self.f:
                self.ctx.see('unresolvable reads')
                if raw != 0:
                    self.problem('path', i, 'unresolvable option reads as %x' % raw)
                if code != ACC['NO_VALUE']:
                    self.problem('path-code', i, 'code %d after reading an unresolvable option' % code)
            return True
        if 'path' in self.f and code != 0:
            self.problem('path-code', i, 'code %d after a successful read' % code)
        if 'value' in self.f and st.e['t'] not in COLL:
            self.ctx.see('values read')
            t = st.e['t']
            h = st.e.get('handler')
            want = st.value
            from .proto import unesc
            s = unesc(rec.fields[1]) if len(rec.fields) > 2 else None
            if h:
                got = s if h['mode'] != 'I' else dec(raw, None, 'int')
                if not st.have:
                    want = None if h['mode'] != 'I' else 0
            else:
                got = dec(raw, s, t)
                if not st.have:
                    want = None if t == 'str' else 0.0 if t == 'float' else False if t in ('bool', 'flag') else 0
            if not same(got, want):
                self.problem('value', i, 'reads %s, expected %s' % (show(got), show(want)))
        return True

    def op_S(self, i, op, rec):
        st = self.st(op)
        got = int(rec.fields[0])
        if 'set' in self.f:
            self.ctx.see('set queries')
            want = None if st is not None and (st.have and not st.provided) else 1 if st is not None and st.provided else 0
            if st is not None and st.e['k'] == 'sub':
                want = None
            if want is not None and got != want:
                self.problem('set', i, 'is_set %d, expected %d' % (got, want))
            self.same_answer('set', i, op, got)
        return True

    def same_answer(self, what, i, op, got):
        """what is asked again between two parses is answered alike, also where the answer itself is not judged"""
        said = self.c[op[1]].get('said')
        if said is not None and said.setdefault((what, op[2]), got) != got:
            self.problem(what, i, 'answers %d, answered %d before' % (got, said[what, op[2]]))

    def op_K(self, i, op, rec):
        st = self.st(op)
        got = int(rec.fields[0])
        if 'count' in self.f:
            self.ctx.see('count queries')
            self.same_answer('count', i, op, got)
            if st is None:
                want = 0
            elif st.e['k'] in ('sub', 'help', 'version') or (st.have and not st.provided):
                return True
            elif st.e['t'] in COLL:
                want = len(st.value)
            else:
                want = 1 if st.provided else 0
            if got != want:
                self.problem('count', i, 'count %d, expected %d' % (got, want))
        return True

    def op_T(self, i, op, rec):
        st = self.st(op)
        t = st.e.get('t') if st is not None else None
        ok = st is not None and (t in ARRAYS or t in VARIADIC)
        out, ended = passes(rec.fields, t if ok else 'aint')
        want = list(st.value) if ok else []
        self.iterated(i, out, ended, want)
        return True

    def iterated(self, i, out, ended, want):
        if 'value' in self.f:
            self.ctx.see('elements read', len(want))
            if len(out[0]) != len(want) or not all(same(a, b) for a, b in zip(out[0], want)):
                self.problem('value', i, 'holds %s, expected %s' % (show(out[0]), show(want)))
        if 'iter' in self.f:
            for k in range(1, len(out)):
                if out[0] != out[k] and not any(x != x for x in out[0] if isinstance(x, float)):
                    self.problem('iter', i, 'pass %d %s differs from the first %s' % (k + 1, show(out[k]), show(out[0])))
            if not all(ended):
                self.problem('iter', i, 'iterator goes on after its end')

    def op_Y(self, i, op, rec):
        st = self.st(op)
        t = st.e.get('t') if st is not None else None
        ok = st is not None and t in MAPS
        out, ended = passes(rec.fields, t if ok else 'mint')
        want = list(st.value.items()) if ok else []
        if ok:
            fl = st.e.get('flags', [])
            if 'FLAG_SORTED_KEY' not in fl and 'FLAG_SORTED_VALUE' not in fl:
                # insertion order is not promised
                out = [sorted(o, key=lambda kv: kv[0]) for o in out]
                want = sorted(want, key=lambda kv: kv[0])
            elif 'FLAG_SORTED_KEY' not in fl:
                # nor the order among equal values
                vals = [v for _, v in out[0]]
                if any(a > b for a, b in zip(vals, vals[1:])):
                    if 'value' in self.f:
                        self.problem('order', i, 'values not ascending: %s' % show(out[0]))
                out = [sorted(o, key=lambda kv: kv[0]) for o in out]
                want = sorted(want, key=lambda kv: kv[0])
        self.iterated(i, out, ended, want)
        return True

    def op_X(self, i, op, rec):
        st = self.st(op)
        raw, code = int(rec.fields[0], 16), int(rec.fields[-1])
        from .proto import unesc
        s = unesc(rec.fields[1]) if len(rec.fields) > 2 else None
        idx = int(op[3])
        if st is None:
            exp = 'NO_VALUE'
        elif st.e.get('t') not in ARRAYS and st.e.get('t') not in VARIADIC:
            exp = 'INVALID_TYPE'
        elif idx >= len(st.value):
            exp = 'INVALID_INDEX'
        else:
            exp = None
        self.accessed(i, exp, raw, code, None if exp else dec(raw, s, st.e['t']), None if exp else st.value[idx])
        return True

    def op_M(self, i, op, rec):
        st = self.st(op)
        raw, code = int(rec.fields[0], 16), int(rec.fields[-1])
        from .proto import unesc
        s = unesc(rec.fields[1]) if len(rec.fields) > 2 else None
        if st is None:
            exp = 'NO_VALUE'
        elif st.e.get('t') not in MAPS:
            exp = 'INVALID_TYPE'
        elif op[3] not in st.value:
            exp = 'INVALID_KEY'
        else:
            exp = None
        self.accessed(i, exp, raw, code, None if exp else dec(raw, s, st.e['t']), None if exp else st.value[op[3]])
        return True

    def accessed(self, i, exp, raw, code, got, want):
        if 'path' in self.f:
            self.ctx.see('accessor ' + (exp or 'ok'))
            if exp:
                if raw != 0:
                    self.problem('path', i, 'reads %x, expected nothing (%s)' % (raw, exp))
                if code != ACC[exp]:
                    self.problem('path-code', i, 'code %d, expected %s' % (code, exp))
            elif code != 0:
                self.problem('path-code', i, 'code %d after a successful read' % code)
        if 'value' in self.f and not exp and not same(got, want):
            self.problem('value', i, 'reads %s, expected %s' % (show(got), show(want)))

    def op_B(self, i, op, rec):
        r = self.c[op[1]]['r']
        if 'exec' in self.f and r is not None and r.kind == 'ok':
            if int(rec.fields[0]) != (1 if r.chain else 0):
                self.problem('exec', i, 'has_command %s, chain %s' % (rec.fields[0], [e['name'] for e in r.chain]))
        return True


def sig_of(r):
    """what kind of parse this was"""
    if r is None:
        return 'none'
    if r.kind == 'err':
        return 'err/%s/%d' % (r.why, r.code)
    if r.kind == 'skip':
        return 'skip'
    d = len(r.chain)
    n = sum(1 for lv in r.levels for st in r.state[lv] if st.provided)
    return '%s/depth%d/opts%s' % (r.kind if r.kind == 'ok' else 'exit-' + r.exit_kind, d, min(n, 6))
