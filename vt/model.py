"""Reference model of the parser, written from the documentation and the property statements.

Parse(schema).run(argv, env, prefix) yields a Result: the status ('ok', 'err', 'exit'), the state of every
option, the user callbacks expected, and text that must appear in the error message.
"""
import re

from .schema import ARRAYS, MAPS, VARIADIC, COLL, opt_name

# error codes, by the names in errors.h (values are resolved at build time from the header)
ERR_NAMES = ['ARGUS_SUCCESS', 'ARGUS_SHOULD_EXIT', 'ARGUS_STRUCT_ERROR', 'ARGUS_ERROR_DUPLICATE_OPTION',
             'ARGUS_ERROR_INVALID_HANDLER', 'ARGUS_ERROR_INVALID_DEFAULT', 'ARGUS_ERROR_INVALID_GROUP',
             'ARGUS_ERROR_INVALID_DEPENDENCY', 'ARGUS_ERROR_INVALID_FLAG', 'ARGUS_ERROR_INVALID_POSITION',
             'ARGUS_ERROR_MALFORMED_OPTION', 'ARGUS_ERROR_MISSING_HELP', 'ARGUS_ERROR_INVALID_ARGUMENT',
             'ARGUS_ERROR_MISSING_VALUE', 'ARGUS_ERROR_MISSING_REQUIRED', 'ARGUS_ERROR_CONFLICTING_OPTIONS',
             'ARGUS_ERROR_INVALID_FORMAT', 'ARGUS_ERROR_EXCLUSIVE_GROUP', 'ARGUS_ERROR_INVALID_CHOICE',
             'ARGUS_ERROR_INVALID_RANGE', 'ARGUS_ERROR_AMBIGUOUS_SUBCOMMAND', 'ARGUS_ERROR_NO_COMMAND',
             'ARGUS_ERROR_NO_VALUE', 'ARGUS_ERROR_INVALID_TYPE', 'ARGUS_ERROR_INVALID_INDEX',
             'ARGUS_ERROR_INVALID_KEY', 'ARGUS_ERROR_MEMORY', 'ARGUS_ERROR_INTERNAL', 'ARGUS_ERROR_UNSUPPORTED',
             'ARGUS_ERROR_INVALID_VALUE', 'ARGUS_ERROR_STACK_OVERFLOW']
CODE = {n: i for i, n in enumerate(ERR_NAMES)}
E = {n.replace('ARGUS_ERROR_', '').replace('ARGUS_', ''): i for i, n in enumerate(ERR_NAMES)}
MAX_DEPTH = 8

TRUE = {'1', 'true', 'yes', 'y', 'on', '0x1', '0b1'}
FALSE = {'0', 'false', 'no', 'n', 'off', '0x0', '0b0'}


class Fail(Exception):
    def __init__(self, code, *frags, phase='parse', why=''):
        self.code, self.frags, self.phase, self.why = code, list(frags), phase, why


class Unjudged(Exception):
    """a text on which the documentation takes no position"""


class Exit(Exception):
    def __init__(self, kind, depth):
        self.kind, self.depth = kind, depth


def low(s):
    return ''.join(chr(ord(c) + 32) if 'A' <= c <= 'Z' else c for c in s)


def to_bool(s):
    s = low(s)
    return True if s in TRUE else False if s in FALSE else None


def to_int(s, bits=64):
    if s[:1] in WS or s[:1] == '+':
        raise Unjudged()
    if not re.fullmatch(r'[+-]?[0-9]+', s):
        return None
    n = int(s)
    return n if -(1 << bits - 1) <= n < (1 << bits - 1) else None


FLOAT_RE = re.compile(r'[+-]?(?:[0-9]+(?:\.[0-9]*)?|\.[0-9]+)(?:[eE][+-]?[0-9]+)?')


WS = tuple(' \t\n\v\f\r')


def to_float(s):
    if s[:1] in WS or s[:1] == '+' or re.match('[+-]?(0[xX]|[nN][aA][nN])', s):
        raise Unjudged()
    if not FLOAT_RE.fullmatch(s):
        if low(s).lstrip('+-') in ('inf', 'infinity'):
            return float(s)
        return None
    x = float(s)
    if x in (float('inf'), float('-inf')):
        return None
    if abs(x) < 2.2250738585072014e-308 and re.search('[1-9]', re.split('[eE]', s)[0]):
        raise Unjudged()
    return x


def int_range(s):
    """elements of one item of an integer array, or None"""
    if re.match(r'[ \t\n\v\f\r+]', s) or re.search(r'[-:][ \t\n\v\f\r+]', s):
        raise Unjudged()
    m = re.fullmatch(r'(-?[0-9]+)(?:[-:](-?[0-9]+))?', s)
    if not m:
        return None
    a = to_int(m.group(1), 32)
    b = to_int(m.group(2), 32) if m.group(2) is not None else a
    if a is None or b is None:
        return None
    if abs(a - b) > 10**5:
        b = a       # such cases are not run (gen.huge_range)
    return range(min(a, b), max(a, b) + 1)


def same_value(t, a, b):
    if t in ('afloat', 'mfloat', 'vfloat'):
        return a == b or abs(a - b) < 1e-7
    return a == b


def dedup(t, xs):
    if t in ('afloat', 'mfloat', 'vfloat'):
        out = []
        for x in xs:
            if not any(same_value(t, x, y) for y in out):
                out.append(x)
        return out
    return list(dict.fromkeys(xs))


def said(cb, text):
    """what a callback announces when it refuses"""
    return ["%s '%s'" % (cb['say'], '(none)' if text is None else text)] if cb.get('say') else []


class State:
    """what one option holds"""
    __slots__ = ('e', 'value', 'have', 'provided', 'count', 'owned')

    def __init__(self, e):
        self.e = e
        self.reset()

    def reset(self):
        e = self.e
        self.have = 'default' in e
        self.value = e.get('default')
        if e.get('t') in COLL:
            self.value = {} if e['t'] in MAPS else []
        self.provided = False
        self.count = 0
        self.owned = False


class Result:
    def __init__(self):
        self.kind = None        # 'ok' | 'err' | 'exit'
        self.code = 0
        self.frags = []
        self.why = ''
        self.phase = None
        self.alts = None        # further codes acceptable (several violations at once)
        self.events = []
        self.chain = []         # selected subcommand entries
        self.levels = [0]       # level indices of the root and the chain
        self.state = None       # {level: [State,...]}
        self.exit_kind = None
        self.errors = []        # every relation violated (post phase), as Fail


class Parse:
    def __init__(self, schema, prefix=None):
        self.s = schema
        self.prefix = prefix
        self.levels = schema['levels']

    def run(self, args, env=None):
        """args: without the program name"""
        r = self.r = Result()
        r.state = {i: [State(e) for e in lv] for i, lv in enumerate(self.levels)}
        self.env = env or {}
        try:
            self.level(0, list(args))
            self.phase = 'env'
            for lv in r.levels:
                self.load_env(lv)
            self.phase = 'post'
            self.post()
            r.kind = 'ok'
        except Fail as f:
            r.kind, r.code, r.frags, r.phase, r.why = 'err', f.code, f.frags, f.phase, f.why
        except Exit as x:
            r.kind, r.exit_kind = 'exit', x.kind
        except Unjudged:
            r.kind, r.why = 'skip', 'unjudged text'
        return r

    # --- tokens
    def level(self, lv, args):
        self.phase = 'parse'
        ents = self.levels[lv]
        npos = 0
        only = False
        i = 0
        while i < len(args):
            a = args[i]
            if not only and a == '--':
                only = True
            elif only:
                self.positional(lv, a, npos)
                npos += 1
            elif a.startswith('--'):
                i = self.long(lv, a[2:], args, i)
            elif a.startswith('-') and len(a) > 1:
                if re.match(r'-\.?[0-9]', a):
                    p = self.find_pos(lv, npos)
                    if p is not None and p.e['t'] in ('int', 'float', 'vint', 'vfloat'):
                        self.positional(lv, a, npos)
                        npos += 1
                        i += 1
                        continue
                i = self.short(lv, a[1:], args, i)
            else:
                sub = self.find_sub(ents, a)
                if sub is not None:
                    self.r.state[lv][ents.index(sub)].have = True
                    if len(self.r.chain) >= MAX_DEPTH:
                        raise Fail(E['STACK_OVERFLOW'], sub['name'], why='depth')
                    self.r.chain.append(sub)
                    self.r.levels.append(sub['level'])
                    return self.level(sub['level'], args[i + 1:])
                self.positional(lv, a, npos)
                npos += 1
            i += 1

    def find_sub(self, ents, a):
        subs = [e for e in ents if e['k'] == 'sub']
        for e in subs:
            if e['name'] == a:
                return e
        c = [e for e in subs if e['name'].startswith(a)]
        if len(c) > 1:
            raise Fail(E['AMBIGUOUS_SUBCOMMAND'], a, c[0]['name'], c[1]['name'], why='ambiguous')
        return c[0] if c else None

    def find_pos(self, lv, n):
        k = 0
        for st in self.r.state[lv]:
            if st.e['k'] == 'pos':
                if st.e['t'] in VARIADIC or k == n:
                    return st
                k += 1
        return None

    def positional(self, lv, a, n):
        st = self.find_pos(lv, n)
        if st is None:
            raise Fail(E['INVALID_ARGUMENT'], "'%s'" % a, why='unknown positional')
        self.callbacks(st, a)

    @staticmethod
    def is_flag(e):
        return e['k'] in ('help', 'version') or e.get('t') == 'flag'

    def long(self, lv, a, args, i):
        name, eq, val = a.partition('=')
        for st in self.r.state[lv]:
            e = st.e
            l = 'help' if e['k'] == 'help' else 'version' if e['k'] == 'version' else e.get('l') if e['k'] == 'opt' else None
            if l == name and l is not None:
                if self.is_flag(e):
                    self.callbacks(st, None)
                    return i
                if eq:
                    self.callbacks(st, val)
                    return i
                if i + 1 < len(args):
                    self.callbacks(st, args[i + 1])
                    return i + 1
                raise Fail(E['MISSING_VALUE'], '--' + name, why='missing value')
        raise Fail(E['INVALID_ARGUMENT'], '--' + name, why='unknown long')

    def short(self, lv, a, args, i):
        k = 0
        while k < len(a):
            c = a[k]
            for st in self.r.state[lv]:
                e = st.e
                s = 'h' if e['k'] == 'help' else 'V' if e['k'] == 'version' else e.get('s') if e['k'] == 'opt' else None
                if s == c:
                    break
            else:
                raise Fail(E['INVALID_ARGUMENT'], '-' + c, why='unknown short')
            if self.is_flag(e):
                self.callbacks(st, None)
                k += 1
            elif k + 1 < len(a):
                self.callbacks(st, a[k + 1:])
                return i
            elif i + 1 < len(args):
                self.callbacks(st, args[i + 1])
                return i + 1
            else:
                raise Fail(E['MISSING_VALUE'], '-' + c, why='missing value')
        return i

    # --- one occurrence
    def callbacks(self, st, text):
        e = st.e
        ph = self.phase
        for v in e.get('vals', []):
            if v['v'] == 'rec' and not v['post']:
                self.r.events.append(('V', v['id'], text))
                if v['rc'] and (v.get('trigger') is None or v['trigger'] == text):
                    raise Fail(v['rc'], *said(v, text), phase=ph, why='callback')
            elif v['v'] == 'regex':
                if text is None or not re.search(v['py'], text):
                    raise Fail(E['INVALID_VALUE'], "'%s'" % text, phase=ph, why='regex')
        h = e.get('handler')
        if e['k'] in ('help', 'version'):
            if self.phase == 'parse':
                raise Exit(e['k'], len(self.r.chain))
        elif h:
            self.r.events.append(('H', h['id'], text))
            if h['rc'] and (h.get('trigger') is None or h['trigger'] == text):
                if h['mode'] == 'E':
                    st.value, st.owned = text, True
                raise Fail(h['rc'], *said(h, text), phase=ph, why='callback')
            if h['mode'] == 'I':
                st.value = len(text) if text is not None else -1
            else:
                st.value = text if h['mode'] != 'N' else None
                st.owned = h['mode'] in 'DE'
        else:
            self.store(st, text)
        st.have = st.provided = True
        st.count = len(st.value) if e.get('t') in COLL else 1
        if 'FLAG_EXIT' in e.get('flags', []) and self.phase == 'parse':
            raise Exit('custom', len(self.r.chain))

    def store(self, st, text):
        t = st.e['t']
        ph = self.phase
        if t == 'flag':
            if text is None:
                st.value = True
                return
            t = 'bool'
        if t == 'str':
            st.value = text
        elif t == 'int':
            n = to_int(text)
            if n is None:
                raise Fail(E['INVALID_FORMAT'], text, phase=ph, why='convert')
            st.value = n
        elif t == 'float':
            x = to_float(text)
            if x is None:
                raise Fail(E['INVALID_FORMAT'], text, phase=ph, why='convert')
            st.value = x
        elif t == 'bool':
            b = to_bool(text)
            if b is None:
                raise Fail(E['INVALID_ARGUMENT'], text, phase=ph, why='convert')
            st.value = b
        elif t in ARRAYS:
            st.value = self.flags(st, st.value + self.items(t, text))
        elif t in VARIADIC:
            x = {'vstr': lambda s: s, 'vint': to_int, 'vfloat': to_float}[t](text)
            if x is None:
                raise Fail(E['INVALID_VALUE'], text, phase=ph, why='convert')
            st.value = self.flags(st, st.value + [x])
        else:
            self.pairs(st, text)

    def split(self, text):
        return [x for x in text.split(',') if x] if ',' in text else [text]

    def items(self, t, text):
        out = []
        for it in self.split(text):
            if t == 'astr':
                out.append(it)
            elif t == 'aint':
                r = int_range(it)
                if r is None:
                    raise Fail(E['INVALID_FORMAT'], it, phase=self.phase, why='convert')
                out.extend(r)
            else:
                x = to_float(it)
                if x is None:
                    raise Fail(E['INVALID_FORMAT'], it, phase=self.phase, why='convert')
                out.append(x)
        return out

    def flags(self, st, xs):
        fl = st.e.get('flags', [])
        if 'FLAG_SORTED' in fl:
            xs = sorted(xs)
        if 'FLAG_UNIQUE' in fl:
            xs = dedup(st.e['t'], xs)
        return xs

    def pairs(self, st, text):
        t = st.e['t']
        m = dict(st.value)
        for p in self.split(text):
            k, eq, v = p.partition('=')
            if not eq:
                raise Fail(E['INVALID_FORMAT'], p, phase=self.phase, why='convert')
            x = {'mstr': lambda s: s, 'mint': to_int, 'mfloat': to_float, 'mbool': to_bool}[t](v)
            if x is None:
                raise Fail(E['INVALID_VALUE'], v, phase=self.phase, why='convert')
            m[k] = x
        fl = st.e.get('flags', [])
        items = list(m.items())
        if 'FLAG_UNIQUE_VALUE' in fl:
            out = []
            for k, v in items:
                if not any(same_value(t, v, w) for _, w in out):
                    out.append((k, v))
            items = out
        if 'FLAG_SORTED_KEY' in fl:
            items.sort(key=lambda kv: kv[0])
        elif 'FLAG_SORTED_VALUE' in fl:
            items.sort(key=lambda kv: kv[1])
        st.value = dict(items)

    # --- environment
    def env_name(self, e):
        fl = e.get('flags', [])
        pre = self.prefix or ''
        sep = '_' if pre and not pre.endswith('_') else ''
        if e.get('env') is not None:
            if 'FLAG_NO_ENV_PREFIX' in fl or (pre and e['env'].startswith(pre)):
                return e['env']
            return pre + sep + e['env']
        if 'FLAG_AUTO_ENV' in fl:
            n = opt_name(e).encode('latin-1').upper().decode('latin-1').replace('-', '_')
            return n if 'FLAG_NO_ENV_PREFIX' in fl else (pre + sep).upper() + n
        return None

    def load_env(self, lv):
        for st in self.r.state[lv]:
            e = st.e
            if e['k'] not in ('opt', 'pos'):
                continue
            if st.provided and 'FLAG_ENV_OVERRIDE' not in e.get('flags', []):
                continue
            n = self.env_name(e)
            if n is None or n not in self.env:
                continue
            if st.provided:
                if st.owned:
                    self.r.events.append(('F', e.get('free'), st.value))
                st.reset()
            self.callbacks(st, self.env[n])

    # --- relations and validators after everything was read
    def find(self, lv, name):
        for st in self.r.state[lv]:
            if st.e['k'] not in ('group', 'gend') and opt_name(st.e) == name:
                return st
        return None

    def post(self):
        first = None
        for lv in self.r.levels:
            group, seen = None, None
            for st in self.r.state[lv]:
                e = st.e
                errs = []
                if e['k'] == 'gend':
                    group, seen = None, None
                    continue
                if e['k'] == 'group':
                    group, seen = e, None
                    continue
                if e['k'] == 'sub':
                    continue
                req = (e['k'] == 'pos' and not e.get('optional')) or (e['k'] == 'opt' and 'FLAG_REQUIRED' in e.get('flags', []))
                if req and not st.have:
                    errs.append(Fail(E['MISSING_REQUIRED'], opt_name(e), phase='post', why='required'))
                if st.have:
                    if group and group.get('exclusive') and st.provided:
                        if seen is None:
                            seen = e
                        else:
                            errs.append(Fail(E['EXCLUSIVE_GROUP'], opt_name(seen), opt_name(e), phase='post', why='exclusive'))
                    errs += self.validate(st, first is None and not errs)
                    if st.provided:
                        for n in e.get('req', []):
                            o = self.find(lv, n)
                            if o is not None and not o.have:
                                errs.append(Fail(E['MISSING_REQUIRED'], n, opt_name(e), phase='post', why='require'))
                        for n in e.get('conf', []):
                            o = self.find(lv, n)
                            if o is not None and o.provided:
                                errs.append(Fail(E['CONFLICTING_OPTIONS'], opt_name(e), n, phase='post', why='conflict'))
                self.r.errors += errs
                if errs and first is None:
                    first = errs[0]
        if first is not None:
            raise first

    def validate(self, st, live):
        """refusals of the post validators; callbacks of the user run only while nothing has been refused"""
        e = st.e
        errs = []
        for v in e.get('vals', []):
            k = v['v']
            if k == 'rec' and v['post']:
                if not live or errs:
                    continue
                text = st.value if v['kind'] == 's' else str(len(st.value)) if v['kind'] == 'n' else str(st.value)
                self.r.events.append(('P', v['id'], text))
                if v['rc'] and (v.get('trigger') is None or v['trigger'] == text):
                    errs.append(Fail(v['rc'], *said(v, text), phase='post', why='callback'))
            elif k == 'range':
                if not (v['a'] <= st.value <= v['b']):
                    errs.append(Fail(E['INVALID_RANGE'], phase='post', why='range'))
            elif k in ('length', 'count'):
                if not (v['a'] <= len(st.value) <= v['b']):
                    errs.append(Fail(E['INVALID_RANGE'], phase='post', why=k))
            elif k in ('cstr', 'cint', 'cfloat'):
                if st.value not in v['c']:
                    errs.append(Fail(E['INVALID_CHOICE'], phase='post', why='choice'))
        return errs

    # --- paths
    def resolve(self, path):
        r = self.r
        if '.' not in path:
            for lv in reversed(r.levels):
                st = self.find(lv, path)
                if st is not None:
                    return st
            return None
        if path.startswith('.'):
            return self.find(0, path[1:])
        parts = path.split('.')
        if len(parts) - 1 > len(r.chain):
            return None
        lv = 0
        for i, c in enumerate(parts[:-1]):
            if r.chain[i]['name'] != c:
                return None
            lv = r.levels[i + 1]
        return self.find(lv, parts[-1])

    def chain_names(self):
        return [e['name'] for e in self.r.chain]
