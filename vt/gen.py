"""Random well-formed option tables, command lines and environments."""
import random
import re
import string

from .schema import ARRAYS, MAPS, VARIADIC, COLL, opt_name

POOL = ['out', 'output', 'output-dir', 'in', 'input', 'inputs', 'verb', 'verbose', 'ver', 'config', 'conf', 'con',
        'count', 'co', 'level', 'lev', 'name', 'names', 'file', 'files', 'size', 'max-size', 'max_size', 'log',
        'log-level', 'tag', 'tags', 'tagset', 'dry-run', 'force', 'f2', 'color', 'colour', 'port', 'port2', 'host',
        'user', 'username', 'user-name', 'mode', 'mod', 'a', 'ab', 'abc', 'x', 'quite-a-long-option-name-for-width',
        'data', 'date', 'dat', 'limit', 'connection-timeout-seconds', 'two--dashes', 'mixed_-name', 'a-_b', 'dir--', 'num_', 'maximum-number-of-simultaneous-requests', 'rate', 'ratio', 'path', 'paths', 'key', 'keys', 'env', 'set', 'unset']
SUBPOOL = ['run', 'runner', 'run-all', 're', 'remote', 'rem', 'remove', 'rename', 'add', 'adduser', 'a', 'del',
           'delete', 'deploy', 'list', 'ls', 'lint', 'build', 'bui', 'test', 'te', 'start', 'stop', 'status', 'sta',
           'init', 'initialize', 'push', 'pull', 'user', 'users', 'grp', 'config2', 'show', 'sh', 'cfg']
POSPOOL = ['source', 'dest', 'target', 'item', 'items', 'what', 'arg1', 'arg2', 'arg3', 'amount', 'where', 'rest']
GRPPOOL = ['Output options', 'Network', 'Advanced', 'Input', 'Misc stuff', 'Grp A', 'Grp B', 'Tuning']
SHORTS = [c for c in string.ascii_letters if c not in 'hV'] + ['_', '@', '+', '?']
WORDS = ('the quick brown fox jumps over lazy dog while parsing arguments from command line and printing help for '
         'users who want to know what happens with values files directories networks timeouts').split()
REGEXES = [('^[a-z]+$', r'^[a-z]+\Z'), ('^[0-9]{2,4}$', r'^[0-9]{2,4}\Z'), ('^(foo|bar)[0-9]*$', r'^(foo|bar)[0-9]*\Z'),
           ('^a.*b$', r'^a.*b\Z'), ('x+', r'x+'), ('^[A-Z][a-z]+-[0-9]+$', r'^[A-Z][a-z]+-[0-9]+\Z')]
ENVWORDS = ['OUT', 'OUTPUT', 'HOST', 'PORT', 'LEVEL', 'APPX', 'TAGS', 'NAME_LIST', 'DEBUG', 'MODE', 'RATE', 'PATHS', 'APP_HOME',
            'MY_KEY', 'X1', 'LONG_VARIABLE_NAME_FOR_TEST']
PREFIXES = [None, None, 'APP', 'APP_', 'MYTOOL', 'X']

OPT_TYPES = ['flag', 'bool', 'str', 'int', 'float', 'astr', 'aint', 'afloat', 'mstr', 'mint', 'mfloat', 'mbool']

def sibling(rng, names, fresh='', room=64):
    """a name hard to tell from one of the names: same beginning, same length, one more or less"""
    base = rng.choice(sorted(names))
    for _ in range(8):
        r = rng.random()
        if r < 0.35:
            x = base[:-1] + rng.choice('abcxyz019')
        elif r < 0.5:
            x = base + rng.choice(['s', '2', '-x', '-name', '1'])
        elif r < 0.6:
            x = base[:-1]
        elif r < 0.75:
            i = rng.randrange(len(base))
            x = base[:i] + rng.choice('abcxyz') + base[i + 1:]
        elif r < 0.85:
            x = rng.choice('abcxyz') + base[1:]
        else:
            x = (base + '-' + '-'.join(rng.choice(WORDS) for _ in range(8)))[:rng.choice([16, 17, 24, 31, 32, 33, 48, 63, 64])]
        if len(x) > 1 and len(x) <= room and x[0].isalnum() and x[-1].isalnum() and x not in names:
            return x
    return None


DEF = dict(levels=1, maxsub=3, nopts=(1, 7), types=OPT_TYPES, ptypes=['str', 'int', 'bool', 'float', 'vstr', 'vint', 'vfloat'],
           npos=(0, 3), p_default=0.25, p_vals=0.2, p_env=0.0, p_req=0.05, p_deps=0.0, p_group=0.0, p_hidden=0.1,
           p_hint=0.1, p_flags=0.4, p_version=0.3, p_action=0.6, p_custom=0.0, p_rec=0.0, p_short_only=0.2,
           p_long_only=0.2, p_excl=0.5, p_env_override=0.3, p_bad_default=0.0, help_words=(1, 8), p_dep_flags=0.1,
           p_exit_opt=0.0, need_types=(), p_sibling=0.12)


def upper(s):
    return s.encode('latin-1').upper().decode('latin-1')        # ASCII letters only, as texts here are bytes


def pick(rng, pair):
    return rng.randint(pair[0], pair[1])


def helptext(rng, k=(1, 8)):
    return ' '.join(rng.choice(WORDS) for _ in range(pick(rng, k)))


def validators(rng, e, bad=False):
    """one or two validators fit for the type, admitting the default when there is one"""
    t = e['t']
    out = []
    d = e.get('default')
    if t == 'int':
        if rng.random() < 0.6:
            a = rng.choice([0, 1, -10, -2**63, 2**31, rng.randint(-100, 100)])
            b = a + rng.choice([0, 1, 5, 100, 2**33])
            if d is not None and not bad:
                a, b = min(a, d), max(b, d)
            out.append({'v': 'range', 'a': a, 'b': min(b, 2**63 - 1)})
        else:
            c = sorted({rng.choice([1, 2, 3, 10, 20, -1, 2**40, -2**63, 2**63 - 1, rng.randint(-1000, 1000), rng.randint(-2**63, 2**63 - 1)])
                        for _ in range(rng.choice([1, 2, 3, 4, 5, 9]))})
            rng.shuffle(c)
            if d is not None and not bad and d not in c:
                c.append(d)
            out.append({'v': 'cint', 'c': c})
    elif t == 'float':
        if rng.random() < 0.6:
            a = rng.choice([0, 1, -10, rng.randint(-100, 100)])
            b = a + rng.choice([0, 1, 5, 100])
            if d is not None and not bad:
                a, b = min(a, int(d) - 1), max(b, int(d) + 1)
            out.append({'v': 'range', 'a': a, 'b': b})
        else:
            c = sorted({rng.choice([0.5, 1.5, 2.0, -0.25, 10.0, 0.1, 0.2, 3.14]) for _ in range(rng.randint(1, 4))})
            if d is not None and not bad and d not in c:
                c.append(d)
            out.append({'v': 'cfloat', 'c': c})
    elif t == 'str':
        r = rng.random()
        if r < 0.35:
            a = rng.choice([0, 1, 2, 3, 8, 8, 127, 255, 256, 1000])
            b = a + rng.choice([0, 1, 2, 10, 100, 156])
            if d is not None and not bad:
                a, b = min(a, len(d)), max(b, len(d))
            out.append({'v': 'length', 'a': a, 'b': b})
        elif r < 0.7 or d is not None:
            c = sorted({rng.choice(['a', 'ab', 'abc', 'red', 'green', 'blue', 'RED', '', 'x y', 'fast', 'slow', 'json', 'xml'])
                        for _ in range(rng.choice([1, 2, 3, 5, 10]))})
            rng.shuffle(c)
            if d is not None and not bad and d not in c:
                c.append(d)
            out.append({'v': 'cstr', 'c': c})
        else:
            p, py = rng.choice(REGEXES)
            out.append({'v': 'regex', 'pattern': p, 'py': py, 'hint': rng.choice([None, 'expected format'])})
    elif t in COLL:
        a = rng.choice([0, 1, 2, 3])
        out.append({'v': 'count', 'a': a, 'b': a + rng.choice([0, 1, 2, 5, 20])})
    if out and rng.random() < 0.25 and t in ('int', 'str', 'float'):
        if t == 'str':
            n = len(d) if d is not None and not bad else 4
            out.append({'v': 'length', 'a': min(1, n), 'b': max(5, n)})
        else:
            n = int(d) if d is not None and not bad else 4
            out.append({'v': 'range', 'a': max(-2**63, min(-5, n - 1)), 'b': min(2**63 - 1, max(50, n + 1))})
    return out


def coll_flags(rng, t):
    fl = []
    if t in ARRAYS or t in VARIADIC:
        fl += [f for f in ('FLAG_SORTED', 'FLAG_UNIQUE') if rng.random() < 0.5]
    elif t in MAPS:
        r = rng.random()
        if r < 0.35:
            fl.append('FLAG_SORTED_KEY')
        elif r < 0.7:
            fl.append('FLAG_SORTED_VALUE')
        if r > 0.9:
            fl.append('FLAG_SORTED_KEY')
            fl.append('FLAG_SORTED_VALUE')
        if rng.random() < 0.3:
            fl.append('FLAG_UNIQUE_VALUE')
    return fl


def default(rng, t):
    if t == 'str':
        return rng.choice([None, '', 'def', 'some default', 'a,b', 'x=y', 'caf\xe9', 'red', 'w' * 60])
    if t == 'int':
        return rng.choice([0, 1, -1, 42, 2**31, -2**40, 2**63 - 1, -2**63, rng.randint(-1000, 1000)])
    if t == 'float':
        return rng.choice([0.0, 1.5, -2.25, 100.0, 0.1, 3.14, 1e10])
    return rng.random() < 0.5


class Gen:
    def __init__(self, rng, **knobs):
        self.rng = rng
        self.k = dict(DEF, **knobs)

    def schema(self, sid):
        self.levels = []
        self.n = 0
        self.sid = sid
        self.envtype = {}
        self.build(0)
        return {'id': sid, 'levels': self.levels, 'debug': False}

    def chance(self, k):
        return self.rng.random() < self.k[k]

    def build(self, depth):
        rng, k = self.rng, self.k
        idx = len(self.levels)
        self.levels.append(None)
        names = {'help'}
        shorts = {'h', 'V'}
        ents = [{'k': 'help'}]
        if self.chance('p_version'):
            ents.append({'k': 'version'})
            names.add('version')
        self.names, self.shorts = names, shorts
        opts = []
        types = list(k['need_types']) if depth == 0 else []
        for _ in range(pick(rng, k['nopts'])):
            types.append(rng.choice(k['types']))
        for t in types:
            o = self.option(t, names, shorts)
            if o:
                opts.append(o)
        # groups over consecutive runs of options
        out = []
        i = 0
        open_end = False
        while i < len(opts):
            if self.chance('p_group'):
                n = rng.randint(1, 3)
                g = rng.choice([x for x in GRPPOOL if x not in names] or ['G%d' % i])
                seen = [x['name'] for x in out if x['k'] == 'group']
                if seen and self.chance('p_sibling'):
                    g = sibling(rng, seen) or g
                if g not in names:
                    names.add(g)
                    out.append({'k': 'group', 'name': g, 'exclusive': self.chance('p_excl')})
                    out += opts[i:i + n]
                    out.append({'k': 'gend'})
                    i += n
                    if i >= len(opts) and rng.random() < 0.4:
                        out.pop()       # the table may end with a group left open
                        open_end = True
                    continue
            out.append(opts[i])
            i += 1
        ents += out
        self.deps(ents)
        subs = depth < k['levels'] and (depth == 0 or rng.random() < 0.75) and not open_end
        pos = []
        if open_end:
            pass
        elif rng.random() < 0.75 or not subs:
            n = pick(rng, k['npos'])
            optional = False
            for j in range(n):
                nm = [x for x in POSPOOL if x not in names]
                if not nm:
                    break
                name = rng.choice(nm)
                if pos and self.chance('p_sibling'):
                    x = sibling(rng, [e['name'] for e in pos])
                    name = x if x and x not in names else name
                t = rng.choice(k['ptypes'])
                if t in VARIADIC and j != n - 1:
                    t = t[1:]
                if not optional and (subs or rng.random() < 0.35):
                    optional = True
                names.add(name)
                p = {'k': 'pos', 't': t, 'name': name, 'help': helptext(rng, k['help_words'])}
                if optional:
                    p['optional'] = True
                    if t not in COLL and self.chance('p_default'):
                        p['default'] = default(rng, t)
                        if p['default'] is None:
                            del p['default']
                if t in VARIADIC and self.chance('p_flags'):
                    p['flags'] = coll_flags(rng, t)
                if self.chance('p_vals'):
                    p['vals'] = validators(rng, p, self.chance('p_bad_default'))
                if self.chance('p_env'):
                    p['env'] = self.envword(t)
                pos.append(p)
        ents += pos
        self.levels[idx] = ents
        if subs:
            m = rng.randint(1, k['maxsub'])
            for _ in range(m):
                cand = [x for x in SUBPOOL if x not in names]
                name = rng.choice(cand)
                seen = [x['name'] for x in ents if x['k'] == 'sub']
                if seen and self.chance('p_sibling'):
                    x = sibling(rng, seen)
                    name = x if x and x not in names else name
                names.add(name)
                e = {'k': 'sub', 'name': name, 'help': helptext(rng, k['help_words'])}
                if self.chance('p_action'):
                    self.n += 1
                    e['action'] = {'id': 'act%d' % self.n, 'rc': rng.choice([0, 0, 1, 7, 42, -3])}
                if self.chance('p_hidden'):
                    e['flags'] = ['FLAG_HIDDEN']
                ents.append(e)
                e['level'] = self.build(depth + 1)
        return idx

    def envword(self, t):
        """a variable name; shared only by options of one type, as texts are made for that type"""
        c = [w for w in ENVWORDS if self.envtype.get(w, t) == t] or ['V%d' % len(self.envtype)]
        w = self.rng.choice(c)
        self.envtype[w] = t
        return w

    def option(self, t, names, shorts):
        rng, k = self.rng, self.k
        s = l = None
        r = rng.random()
        if r >= k['p_short_only']:
            c = [x for x in POOL if x not in names]
            if c:
                l = rng.choice(c)
            seen = [x for x in names if len(x) > 2 and x[0].isalnum() and ' ' not in x]
            if seen and self.chance('p_sibling'):
                x = sibling(rng, seen)
                l = x if x and x not in names else l
        if r < k['p_short_only'] or r < 1 - k['p_long_only'] or l is None:
            c = [x for x in SHORTS if x not in shorts and x not in names]
            s = rng.choice(c)
        name = l if l is not None else s
        if name in names:
            return None
        names.add(name)
        if s:
            shorts.add(s)
        e = {'k': 'opt', 't': t, 's': s, 'l': l, 'help': helptext(rng, k['help_words'])}
        fl = []
        if t in COLL and self.chance('p_flags'):
            fl += coll_flags(rng, t)
        if t not in COLL and t not in ('flag',) and self.chance('p_default'):
            e['default'] = default(rng, t)
            if t == 'str' and e['default'] is None:
                del e['default']
        if self.chance('p_req') and 'default' not in e:
            fl.append('FLAG_REQUIRED')
        if t in ('flag', 'str', 'int') and k['p_exit_opt'] and self.chance('p_exit_opt'):
            fl.append('FLAG_EXIT')
        if self.chance('p_hidden'):
            fl.append('FLAG_HIDDEN')
        if self.chance('p_dep_flags'):
            fl += rng.choice([['FLAG_DEPRECATED'], ['FLAG_EXPERIMENTAL'], ['FLAG_ADVANCED'], ['FLAG_DEPRECATED', 'FLAG_EXPERIMENTAL'],
                              ['FLAG_DEPRECATED', 'FLAG_EXPERIMENTAL', 'FLAG_ADVANCED']])
        if self.chance('p_vals'):
            bad = self.chance('p_bad_default')
            e['vals'] = validators(rng, e, bad)
        if self.chance('p_hint'):
            e['hint'] = rng.choice(['FILE', 'N', 'KEY=VAL', 'a long hint', 'X'])
        if self.chance('p_env'):
            if rng.random() < 0.35 and (l or s).replace('-', '').replace('_', '').isalnum():
                fl.append('FLAG_AUTO_ENV')
            else:
                e['env'] = self.envword(t)
            if rng.random() < 0.25:
                fl.append('FLAG_NO_ENV_PREFIX')
            if self.chance('p_env_override'):
                fl.append('FLAG_ENV_OVERRIDE')
        # validators read the plain int member after a custom handler: keep to its range there
        nums = [e.get('default', 0)] + [x for v in e.get('vals', []) for x in ([v['a'], v['b']] if 'a' in v else v.get('c', []))]
        small = t == 'str' or all(-2**31 <= x < 2**31 for x in nums)
        if t in ('str', 'int') and small and self.chance('p_custom'):
            self.n += 1
            if t == 'str':
                mode = rng.choice('DDS')
                e['handler'] = {'id': 'h%d' % self.n, 'rc': 0, 'mode': mode}
                if mode == 'D':
                    e['free'] = 'f%d' % self.n
            else:
                e['handler'] = {'id': 'h%d' % self.n, 'rc': 0, 'mode': 'I'}
            if rng.random() < 0.3:
                e['handler']['rc'] = rng.choice([12, 29, 77, 1000, -7])
                e['handler']['trigger'] = rng.choice(['bad', 'boom'])
        if self.chance('p_rec') and t in ('str', 'int', 'bool', 'float') or (self.chance('p_rec') and t == 'flag'):
            vs = []
            for _ in range(rng.randint(1, 3)):
                self.n += 1
                v = {'v': 'rec', 'id': 'v%d' % self.n, 'rc': 0, 'post': rng.random() < 0.5,
                     'kind': 's' if t == 'str' and not (e.get('handler') or {}).get('mode') == 'I' else '-'}
                if t in ('bool', 'float', 'flag'):
                    v['post'] = False
                if rng.random() < 0.3:
                    v['rc'] = rng.choice([13, 55, 2000, -3])
                    v['trigger'] = rng.choice(['bad', 'boom', '3'])
                vs.append(v)
            e['vals'] = (e.get('vals') or []) + vs
            rng.shuffle(e['vals'])
        if fl:
            e['flags'] = fl
        return e

    def deps(self, ents):
        rng, k = self.rng, self.k
        opts = [e for e in ents if e['k'] == 'opt']
        for e in opts:
            if self.chance('p_deps') and len(opts) > 1:
                others = [opt_name(o) for o in opts if o is not e]
                rng.shuffle(others)
                nr = rng.choice([0, 1, 1, 2, 3, 4])
                req = others[:nr]
                conf = others[nr:nr + rng.randint(0 if req else 1, rng.choice([2, 2, 4]))]
                if req:
                    e['req'] = req
                if conf:
                    e['conf'] = conf
        return ents


FORMATS = ['even', 'even numbers', 'NULL', 'a|b|c', '100%', '%s', 'caf\xe9', 'x' * 20, 'y' * 21, 'a (b)', 'w' * 60,
           'not-after-the-last-day-of-the-month', '0-9', 'one of the\tthree']


def formatters(rng, schema, p=0.3):
    """gives options and positionals validators of the program's own that describe themselves"""
    n = 0
    for lv in schema['levels']:
        for e in lv:
            if e['k'] not in ('opt', 'pos') or rng.random() >= p:
                continue
            if rng.random() < 0.5:
                e.pop('vals', None)
            for _ in range(rng.choice([1, 1, 2])):
                n += 1
                v = {'v': 'rec', 'id': 'fm%d' % n, 'rc': 0, 'post': rng.random() < 0.5 and e['t'] in ('str', 'int'), 'kind': '-',
                     'fmt': rng.choice(FORMATS)}
                vs = e.setdefault('vals', [])
                vs.insert(rng.randint(0, len(vs)), v)
    return schema


# --------------------------------------------------------------------------- values
ALNUM = string.ascii_letters + string.digits
STR_VALUES = ['', 'a', 'ab', 'abc', 'red', 'green', 'foo1', 'bar', 'xx', 'Abc-12', 'hello world', 'a=b', '=x', 'a,b,,c', ',', '-', '--',
              '-x', '--out', '--help', '-h', '--out=3', '%s%n%d', 'caf\xc3\xa9', '\xff\xfe', '\t', 'x\ny', "it's", '"q"', '\\', '12',
              '-5', 'true', 'json', 'fast', 'bad', 'boom', 'run', 're']


def rand_string(rng):
    r = rng.random()
    if r < 0.6:
        return rng.choice(STR_VALUES)
    if r < 0.9:
        return ''.join(rng.choice(ALNUM + ' =,-_./:') for _ in range(rng.randint(0, 20)))
    if r < 0.97:
        return ''.join(chr(rng.randint(1, 255)) for _ in range(rng.randint(1, 12)))
    return rng.choice('xyz') * rng.choice([127, 128, 255, 256, 1023, 1024, 4096, 70000])


def rand_int_text(rng):
    r = rng.random()
    if r < 0.4:
        return str(rng.randint(-20, 20))
    if r < 0.6:
        return str(rng.choice([2**31 - 1, -2**31, 2**31, 2**32, 2**63 - 1, -2**63, 2**53 + 1, 10**18, -1, 0]))
    if r < 0.9:
        return str(rng.randint(-2**rng.randint(1, 63), 2**rng.randint(1, 63) - 1))
    return rng.choice(['', '-']) + '0' * rng.randint(1, 5) + str(rng.randint(0, 999))


BAD_INT = ['', 'x', '12x', '1.5', '9223372036854775808', '-9223372036854775809', '99999999999999999999999', '1 ', '--1', '-', '1-', '1,2',
           '1e3', 'abc', '18446744073709551616', '1_000', '5 5']


def rand_float_text(rng):
    r = rng.random()
    if r < 0.3:
        return str(rng.randint(-20, 20))
    if r < 0.55:
        return '%.*f' % (rng.randint(0, 6), rng.uniform(-1000, 1000))
    if r < 0.7:
        return repr(rng.uniform(-1, 1) * 10 ** rng.randint(-30, 30))
    if r < 0.85:
        return ''.join(rng.choice('0123456789') for _ in range(rng.randint(1, 40))) + '.' + ''.join(
            rng.choice('0123456789') for _ in range(rng.randint(1, 40)))
    return rng.choice(['0.1', '.5', '-.5', '5.', '1e5', '1E-3', '-2.5e+10', '1.7976931348623157e308', '9007199254740993',
                       '0.30000000000000004', '123456789.123456789', '-0', '-0.0', '2.2250738585072014e-308', '1e-7', '0'])


BAD_FLOAT = ['', 'x', '1.2.3', '1,5', '1e', '1.5x', 'e5', '.', '-', '1e999', '-1e400', '1.5 ', '--1', 'abc', '1..2']
GOOD_BOOL = ['1', 'true', 'yes', 'y', 'on', '0x1', '0b1', '0', 'false', 'no', 'n', 'off', '0x0', '0b0']
BAD_BOOL = ['', 't', 'f', 'tru', 'truee', '2', '-1', '00', '01', 'yess', 'o', 'of', 'none', 'null', '0x', '0b', 'enable', ' true', 'true ',
            '0x01', '10', 'onn', 'nope', '1.0']


def rand_bool_text(rng):
    w = rng.choice(GOOD_BOOL)
    return ''.join(c.upper() if rng.random() < 0.3 else c for c in w)


def scalar(rng, t, bad=False):
    if t == 'str':
        return rand_string(rng)
    if t == 'int':
        return rng.choice(BAD_INT) if bad else rand_int_text(rng)
    if t == 'float':
        return rng.choice(BAD_FLOAT) if bad else rand_float_text(rng)
    return rng.choice(BAD_BOOL) if bad else rand_bool_text(rng)


def aint_item(rng, small=True):
    r = rng.random()
    if r < 0.6:
        return str(rng.randint(-9, 12)) if rng.random() < 0.8 else str(rng.choice([2**31 - 1, -2**31, 100000, -77777, 65536]))
    a = rng.randint(-9, 9) if rng.random() < 0.8 else rng.choice([2**31 - 4, -2**31 + 3, 1000])
    b = a + rng.randint(-6, 6) if rng.random() < 0.95 else a + rng.randint(-300, 300)
    b = max(-2**31, min(2**31 - 1, b))
    return '%d%s%d' % (a, rng.choice('-:'), b)


BAD_AINT = ['x', '1x', '1-', '1:', ':3', '1-x', '1:2:3', '2147483648', '-2147483649', '1.5', '1-2147483648', '1--', '99999999999', '3:1x',
            '4294967297', '-3000000000:1', '--1']
AS_ITEMS = ['a', 'b', 'ab', 'c', 'B', 'x=y', 'hello world', '-1', '--', '10', '9', 'zz', 'caf\xc3\xa9', '%s', 'a', 'b', 'item-with-long-common-beginning-1', 'item-with-long-common-beginning-2', 'item-with-long-common', 'W' * 64 + 'a', 'W' * 64 + 'b']


def arr_item(rng, t, bad=False):
    if t == 'astr' or t == 'vstr':
        return rng.choice(AS_ITEMS) if rng.random() < 0.8 else ''.join(
            rng.choice(ALNUM + '=-_ .') for _ in range(rng.randint(1, 10)))
    if t == 'aint':
        return rng.choice(BAD_AINT) if bad else aint_item(rng)
    if t == 'vint':
        return scalar(rng, 'int', bad)
    return float_close(rng) if not bad else rng.choice([b for b in BAD_FLOAT if b and ',' not in b])


def float_close(rng):
    """floats whose pairwise distances are far from the 1e-7 threshold (0, or well below, or well above)"""
    r = rng.random()
    if r < 0.6:
        return '%.1f' % (rng.randint(-30, 30) / 10)
    if r < 0.8:
        return rng.choice(['1', '1.00000001', '2', '2.00000001', '-1.5', '1.0', '1.50', '0.10000001', '0.1'])
    return '%.3f' % rng.uniform(-1000, 1000)


KEYS = ['a', 'b', 'c', 'ab', 'A', 'k1', 'k2', 'k10', 'key', 'longer key', 'x.y', '-k', 'caf\xc3\xa9']
# alike in their first 8, 16, 32 and 64 bytes
KEYS += ['a-rather-long-key-name-of-forty-characters' + t for t in ('', '1', '2')] + ['a-rather-long-key-1', 'a-rather-long-key-2', 'rather-x', 'rather-y',
        'K' * 64 + 'a', 'K' * 64 + 'b', 'K' * 64]


def map_pair(rng, t, bad=False, keys=None):
    k = rng.choice(keys or KEYS)
    if bad and rng.random() < 0.4:
        return k
    if t == 'mstr':
        v = rng.choice(['1', '2', 'x', '', 'a=b', '=', 'val', 'x y', '--', 'same', 'same']) if rng.random() < 0.8 else \
            ''.join(rng.choice(ALNUM + '=-_ .') for _ in range(rng.randint(0, 10)))
    elif t == 'mint':
        v = rng.choice([b for b in BAD_INT if ',' not in b]) if bad else rng.choice(['1', '2', '3', '-4', '0', rand_int_text(rng)])
    elif t == 'mfloat':
        v = rng.choice([b for b in BAD_FLOAT if ',' not in b]) if bad else float_close(rng)
    else:
        v = rng.choice(BAD_BOOL) if bad else rand_bool_text(rng)
    if bad and t == 'mstr':
        return k
    return k + '=' + v


RANGE = re.compile(r'(?<!\d)(?=(-?\d{1,12})[-:](-?\d{1,12}))')


def huge_range(v):
    """could be read as an integer range of more than a hundred thousand elements"""
    if len(v) < 8 or ('-' not in v and ':' not in v):
        return False
    return any(abs(int(m.group(1)) - int(m.group(2))) > 10**5 for m in RANGE.finditer(v))


def coll_text(rng, t, bad=False, n=None, keys=None):
    """one occurrence of a collection option; now and then nothing but separators"""
    if n is None and not bad and rng.random() < 0.03:
        return ',' * rng.choice([1, 1, 2, 5])
    n = n if n is not None else rng.choice([1, 1, 2, 2, 3, 3, 4, 4, 8, 8, 12, 12, 20, 33, 40, 64])
    items = []
    for i in range(n):
        items.append(map_pair(rng, t, keys=keys) if t in MAPS else arr_item(rng, t))
    if bad:
        items[rng.randrange(n)] = map_pair(rng, t, True) if t in MAPS else arr_item(rng, t, True)
    if rng.random() < 0.25 and n > 1:
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            items.insert(rng.randrange(len(items) + 1), '')
    return ','.join(items)


def value(rng, e, bad=False, keys=None):
    t = e['t']
    if t in ('flag',):
        return None
    if e.get('handler'):
        return rng.choice(['bad', 'boom', 'ok', 'x', 'text value', '3', 'abc'])
    if t in ARRAYS or t in MAPS:
        return coll_text(rng, t, bad, keys=keys)
    if t in VARIADIC:
        return arr_item(rng, t, bad)
    for v in e.get('vals', []):
        # aim at the validator's boundary now and then
        if rng.random() < 0.7:
            k = v['v']
            if k == 'range':
                n = rng.choice([v['a'], v['b'], v['a'], v['b'], v['a'] - 1, v['b'] + 1, (v['a'] + v['b']) // 2])
                n = max(-2**63, min(2**63 - 1, n))
                if t == 'int':
                    return str(n)
                return rng.choice(['%d' % n, '%d.5' % n, '%d.0' % n, '%d.25' % n]) if abs(n) < 10**6 else str(n)
            if k == 'length':
                n = max(0, rng.choice([v['a'], v['b'], v['a'] - 1, v['b'] + 1, v['a'], v['b']]))
                return ''.join(rng.choice(ALNUM) for _ in range(n))
            if k == 'cstr':
                c = rng.choice(v['c'])
                r = rng.random()
                return c if r < 0.7 else c + 'x' if r < 0.8 else c[:-1] if r < 0.9 else upper(c)
            if k == 'cint':
                c = rng.choice(v['c'])
                return str(c if rng.random() < 0.7 else max(-2**63, min(2**63 - 1, c + rng.choice([1, -1, 2**32]))))
            if k == 'cfloat':
                c = rng.choice(v['c'])
                return repr(c if rng.random() < 0.7 else c + rng.choice([1, 0.125, -0.5, 1e-3, 1e-5, 1e-8, 1e-10, 2e-15]))
            if k == 'regex':
                return rng.choice(['abc', '12', '1234', '12345', 'foo', 'bar7', 'foo1x', 'ab', 'a--b', 'axb\n', 'xx', 'Abc-12', 'abc\n', '', 'Abc-',
                                   'zfoo', 'x'])
            if k == 'rec':
                return rng.choice(['bad', 'boom', '3', 'ok', '7'] if t == 'str' else ['3', '7', '1'])
    return scalar(rng, t, bad)


def is_flag(e):
    return e['k'] in ('help', 'version') or e.get('t') == 'flag'


def names_of(e):
    if e['k'] == 'help':
        return 'h', 'help'
    if e['k'] == 'version':
        return 'V', 'version'
    return e['s'], e['l']


def spell(rng, e, v, nonempty_attached=True):
    """one spelling of option e with value v, as a list of tokens"""
    s, l = names_of(e)
    if v is None:
        forms = ([['-' + s]] if s else []) + ([['--' + l]] if l else [])
    else:
        forms = []
        if l:
            forms += [['--' + l + '=' + v], ['--' + l, v]]
        if s:
            forms.append(['-' + s, v])
            if v != '':
                forms.append(['-' + s + v])
    return rng.choice(forms)


class Args:
    """random command line for a schema; not necessarily valid"""

    def __init__(self, rng, schema, p_bad=0.05, p_junk=0.04, p_exit=0.0, maxopts=6, p_sub=0.85, maxpos=4, p_valid_pos=0.85):
        self.rng, self.s = rng, schema
        self.p_bad, self.p_junk, self.p_exit, self.maxopts, self.p_sub = p_bad, p_junk, p_exit, maxopts, p_sub
        self.maxpos, self.p_valid_pos = maxpos, p_valid_pos
        self.used_keys = {}

    def junk(self, lv):
        rng = self.rng
        ents = self.s['levels'][lv]
        names = [n for n in (names_of(e)[1] for e in ents if e['k'] in ('opt', 'help', 'version')) if n]
        r = rng.random()
        if r < 0.5 and names:
            n = rng.choice(names)
            return rng.choice([['--' + n + 'x'], ['--' + n[:-1]], ['--' + upper(n)], ['--' + n + '-'], ['--x' + n], ['--' + n[:1]]])
        if r < 0.7:
            return ['-' + rng.choice(SHORTS)]
        if r < 0.9:
            return [rng.choice(['stray', 'zzz', '-', 'qq', '--unknown=3', '--unknown', '--=', '--=x', '-%', '-\xff', '---', '--%s'])]
        return ['--']

    def opts(self, lv):
        rng = self.rng
        ents = [e for e in self.s['levels'][lv] if e['k'] == 'opt']
        out = []
        if not ents:
            return out
        for e in ents:
            if 'FLAG_REQUIRED' in e.get('flags', []) and rng.random() < 0.9:
                out.append(self.one(e))
        for _ in range(rng.randint(0, self.maxopts)):
            out.append(self.one(rng.choice(ents)))
        # clusters of flags
        fl = [e for e in ents if is_flag(e) and e['s']]
        if fl and rng.random() < 0.4:
            c = '-' + ''.join(rng.choice(fl)['s'] for _ in range(rng.randint(2, 5)))
            vs = [e for e in ents if not is_flag(e) and e['s']]
            if vs and rng.random() < 0.5:
                e = rng.choice(vs)
                v = self.val(e)
                out.append([c + e['s'] + v] if v and rng.random() < 0.5 else [c + e['s'], v])
            else:
                out.append([c])
        rng.shuffle(out)
        return out

    def val(self, e):
        rng = self.rng
        keys = None
        if e.get('t') in MAPS and 'FLAG_UNIQUE_VALUE' in e.get('flags', []):
            # one value per key and occurrence: which one survives otherwise depends on the reading
            used = self.used_keys.setdefault(id(e), set())
            free = [k for k in KEYS if k not in used]
            n = min(len(free), rng.randint(1, 5))
            if not n:
                return 'zz%d=%s' % (rng.randint(0, 10**6), '1')
            ks = rng.sample(free, n)
            used.update(ks)
            return ','.join(map_pair(rng, e['t'], keys=[k]) for k in ks)
        return value(rng, e, rng.random() < self.p_bad, keys)

    def one(self, e):
        return spell(self.rng, e, self.val(e))

    def poss(self, lv):
        rng = self.rng
        out = []
        ps = [e for e in self.s['levels'][lv] if e['k'] == 'pos']
        for e in ps:
            if e.get('optional') and rng.random() < 0.4:
                break
            if not e.get('optional') and rng.random() > 0.95:
                break
            if e['t'] in VARIADIC:
                for _ in range(rng.choice([1, 1, 2, 3, 9, 20])):
                    out.append(value(rng, e, rng.random() < self.p_bad))
            else:
                out.append(value(rng, e, rng.random() < self.p_bad))
        return out

    def level(self, lv):
        rng = self.rng
        ents = self.s['levels'][lv]
        subs = [e for e in ents if e['k'] == 'sub']
        toks = self.opts(lv)
        if rng.random() < self.p_junk:
            toks.insert(rng.randrange(len(toks) + 1), self.junk(lv))
        if rng.random() < self.p_exit:
            e = rng.choice([e for e in ents if e['k'] in ('help', 'version') or 'FLAG_EXIT' in e.get('flags', [])])
            fl = [x['s'] for x in ents if x.get('t') == 'flag' and x['s']]
            if is_flag(e) and names_of(e)[0] and fl and rng.random() < 0.3:
                c = [names_of(e)[0]] + [rng.choice(fl) for _ in range(rng.randint(1, 3))]
                rng.shuffle(c)
                t = ['-' + ''.join(c)]
            else:
                t = spell(rng, e, None if is_flag(e) else self.val(e))
            toks.insert(rng.randrange(len(toks) + 1), t)
        if subs and rng.random() < self.p_sub:
            out = [t for g in toks for t in g]
            e = rng.choice(subs)
            r = rng.random()
            n = e['name'] if r < 0.7 else e['name'][:rng.randint(1, len(e['name']))]
            return out + [n] + self.level(e['level'])
        pos = self.poss(lv)
        # interleave, or everything after --
        if pos and rng.random() < 0.3:
            k = rng.randint(0, len(pos))
            toks = self.mix(toks, pos[:k])
            return [t for g in toks for t in g] + ['--'] + pos[k:]
        toks = self.mix(toks, pos)
        return [t for g in toks for t in g]

    def mix(self, toks, pos):
        toks = list(toks)
        at = sorted(self.rng.randint(0, len(toks)) for _ in pos)
        for k, (i, p) in enumerate(zip(at, pos)):
            toks.insert(i + k, [p])
        return toks

    def make(self):
        self.used_keys = {}
        return self.level(0)


def all_env_names(schema, prefix):
    """(variable, entry) for every environment-bound entry of any level"""
    from .model import Parse
    p = Parse(schema, prefix)
    out = []
    for lv in schema['levels']:
        for e in lv:
            if e['k'] in ('opt', 'pos'):
                n = p.env_name(e)
                if n:
                    out.append((n, e))
    return out


def env_value(rng, e, p_bad=0.05):
    if e['t'] == 'flag':
        return rand_bool_text(rng) if rng.random() > p_bad else rng.choice(BAD_BOOL)
    v = value(rng, e, rng.random() < p_bad)
    return v.replace('\0', '') if v is not None else ''


def environment(rng, schema, prefix, p_set=0.5, p_bad=0.05, decoys=True):
    env = {}
    types = {}
    for n, e in all_env_names(schema, prefix):
        types.setdefault(n, set()).add(e['t'])
    for n, e in all_env_names(schema, prefix):
        if rng.random() < p_set and n not in env:
            if len(types[n]) > 1:
                env[n] = rng.choice(['1', '0', '12', 'true', 'x', 'k=1'])
            else:
                env[n] = env_value(rng, e, p_bad)
        if decoys and rng.random() < 0.15 and e.get('env'):
            # the undecorated or wrongly decorated name must not be read
            for d in (e['env'], 'APP' + e['env'], 'OTHER_' + e['env'], e['env'].lower()):
                if d not in dict(all_env_names(schema, prefix)) and rng.random() < 0.5:
                    env.setdefault(d, env_value(rng, e))
    return env
