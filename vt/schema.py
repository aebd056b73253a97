"""Option tables: a JSON-able description and its emission as C using the public macros only.

All strings are Python str whose characters are the bytes (latin-1).

schema = {'id', 'debug': bool, 'levels': [[entry, ...], ...]}; level 0 is the root and a 'sub' entry
names its own level by index (always greater than its parent's).
"""

TYPES = {'flag': 'FLAG', 'bool': 'BOOL', 'str': 'STRING', 'int': 'INT', 'float': 'FLOAT',
         'astr': 'ARRAY_STRING', 'aint': 'ARRAY_INT', 'afloat': 'ARRAY_FLOAT',
         'mstr': 'MAP_STRING', 'mint': 'MAP_INT', 'mfloat': 'MAP_FLOAT', 'mbool': 'MAP_BOOL'}
PTYPES = {'str': 'STRING', 'int': 'INT', 'bool': 'BOOL', 'float': 'FLOAT',
          'vstr': 'MANY_STRING', 'vint': 'MANY_INT', 'vfloat': 'MANY_FLOAT'}
ARRAYS = ('astr', 'aint', 'afloat')
MAPS = ('mstr', 'mint', 'mfloat', 'mbool')
VARIADIC = ('vstr', 'vint', 'vfloat')
COLL = ARRAYS + MAPS + VARIADIC


def elem_kind(t):
    """kind letter the driver needs to print a value: 's' when it is a string pointer"""
    return 's' if t in ('str', 'astr', 'mstr', 'vstr', 'custom') else '-'


def cstr(s):
    if s is None:
        return 'NULL'
    out = ['"']
    for ch in s:
        o = ord(ch)
        if ch in '"\\':
            out.append('\\' + ch)
        elif ch == '?':
            out.append('\\?')
        elif 32 <= o < 127:
            out.append(ch)
        else:
            out.append('\\%03o' % o)
    out.append('"')
    return ''.join(out)


def cchar(c):
    if c is None:
        return "'\\0'"
    if c in "'\\":
        return "'\\" + c + "'"
    o = ord(c)
    return "'%s'" % c if 32 <= o < 127 else "'\\%03o'" % o


def cint(n):
    return '(-9223372036854775807LL-1)' if n == -2**63 else '%dLL' % n


def cfloat(x):
    r = repr(float(x))
    return r if ('.' in r or 'e' in r) else r + '.0'


def cdefault(t, v):
    if t in ('str',):
        return cstr(v)
    if t == 'int':
        return cint(v)
    if t == 'float':
        return cfloat(v)
    return 'true' if v else 'false'


class Emitter:
    def __init__(self, schema):
        self.s = schema
        self.pre = []
        self.n = 0

    def uid(self):
        self.n += 1
        return '%s_%d' % (self.s['id'], self.n)

    def validator(self, v):
        k = v['v']
        if k in ('range', 'length', 'count'):
            return 'V_%s(%s, %s)' % (k.upper(), cint(v['a']), cint(v['b']))
        if k == 'regex':
            if 'macro' in v:
                return v['macro'] + '()'
            if 're' in v:
                return 'V_REGEX(%s)' % v['re']
            return 'V_REGEX(MAKE_REGEX(%s, %s))' % (cstr(v['pattern']), cstr(v.get('hint')))
        if k == 'cstr':
            return 'V_CHOICE_STR(%s)' % ', '.join(cstr(x) for x in v['c'])
        if k == 'cint':
            return 'V_CHOICE_INT(%s)' % ', '.join(cint(x) for x in v['c'])
        if k == 'cfloat':
            return 'V_CHOICE_FLOAT(%s)' % ', '.join(cfloat(x) for x in v['c'])
        if k == 'rec':
            u = 'val_' + self.uid()
            pk = self.peeks(v.get('peek'))
            self.pre.append('static vt_val_t %s = {%s, %d, %d, \'%s\', %s, %s, %s, %s};' % (
                u, cstr(v['id']), v['rc'], 1 if v['post'] else 0, v['kind'], cstr(v.get('trigger')), cstr(v.get('say')),
                cstr(v.get('fmt')), pk))
            return 'MAKE_VALIDATOR(vt_validate, %s, _V_DATA_CUSTOM_(&%s), %s)' % (
                'vt_format' if v.get('fmt') is not None else 'NULL', u, 'ORDER_POST' if v['post'] else 'ORDER_PRE')
        raise ValueError(k)

    def peeks(self, ps):
        """reads made from inside a callback: [code, name, kind(, argument)]"""
        if not ps:
            return 'NULL'
        u = 'pk_' + self.uid()
        self.pre.append('static vt_peek_t %s[] = {%s, {0}};' % (u, ', '.join(
            '{%s, %s, %s, %s}' % (cchar(p[0]), cstr(p[1]), cchar(p[2]), cstr(p[3] if len(p) > 3 else None)) for p in ps)))
        return u

    def attrs(self, e):
        a = []
        if e.get('help') is not None:
            a.append('HELP(%s)' % cstr(e['help']))
        if e.get('hint') is not None:
            a.append('HINT(%s)' % cstr(e['hint']))
        if 'default' in e:
            a.append('DEFAULT(%s)' % cdefault(e['t'], e['default']))
        if e.get('env') is not None:
            a.append('ENV_VAR(%s)' % cstr(e['env']))
        fl = e.get('flags', [])
        if e['k'] == 'pos':
            if e.get('optional'):
                a.append('FLAGS(%s)' % ' | '.join(['FLAG_OPTIONAL'] + fl))
            elif fl:
                a.append('FLAGS(%s)' % ' | '.join(['FLAG_REQUIRED'] + fl))
        elif fl:
            a.append('FLAGS(%s)' % ' | '.join(fl))
        if e.get('vals'):
            a.append('VALIDATOR(%s)' % ', '.join(self.validator(v) for v in e['vals']))
        if e.get('req'):
            a.append('REQUIRE(%s)' % ', '.join(cstr(x) for x in e['req']))
        if e.get('conf'):
            a.append('CONFLICT(%s)' % ', '.join(cstr(x) for x in e['conf']))
        h = e.get('handler')
        if h == 'NULL':
            a.append('HANDLER(NULL)')
        elif h:
            u = 'hnd_' + self.uid()
            self.pre.append('static int %s(argus_t *a, argus_option_t *o, char *v) { return vt_handle(a, o, v, %s, %d, %s, \'%s\', %s); }'
                            % (u, cstr(h['id']), h['rc'], cstr(h.get('trigger')), h['mode'], cstr(h.get('say'))))
            a.append('HANDLER(%s)' % u)
        f = e.get('free')
        if f:
            u = 'fre_' + self.uid()
            self.pre.append('static int %s(argus_option_t *o) { return vt_free(o, %s); }' % (u, cstr(f)))
            a.append('FREE_HANDLER(%s)' % u)
        if e.get('action'):
            u = 'act_' + self.uid()
            pk = self.peeks(e['action'].get('peek'))
            self.pre.append('static int %s(argus_t *a, void *d) { return vt_action(a, d, %s, %d, %s); }'
                            % (u, cstr(e['action']['id']), e['action']['rc'], pk))
            a.append('ACTION(%s)' % u)
        if e.get('raw'):
            a.append(e['raw'])
        return a

    def entry(self, e):
        k = e['k']
        if k == 'help':
            return 'HELP_OPTION()'
        if k == 'version':
            return 'VERSION_OPTION()'
        if k == 'group':
            return 'GROUP_START(%s)' % ', '.join([cstr(e['name'])] + (
                ['FLAGS(FLAG_EXCLUSIVE)'] if e.get('exclusive') else []) + ([e['raw']] if e.get('raw') else []))
        if k == 'gend':
            return 'GROUP_END()'
        a = self.attrs(e)
        if k == 'opt':
            if e['t'] == 'custom':
                return 'OPTION_BASE(%s)' % ', '.join([cchar(e['s']), cstr(e['l']), 'VALUE_TYPE_CUSTOM'] + a)
            return 'OPTION_%s(%s)' % (TYPES[e['t']], ', '.join([cchar(e['s']), cstr(e['l'])] + a))
        if k == 'pos':
            if e['t'] == 'custom':
                return 'POSITIONAL_BASE(%s)' % ', '.join([cstr(e['name']), 'VALUE_TYPE_CUSTOM'] + a)
            return 'POSITIONAL_%s(%s)' % (PTYPES[e['t']], ', '.join([cstr(e['name'])] + a))
        if k == 'sub':
            lv = 'NULL' if e['level'] is None else 'tbl_%s_%d' % (self.s['id'], e['level'])
            return 'SUBCOMMAND(%s)' % ', '.join([cstr(e['name']), lv] + a)
        raise ValueError(k)

    def emit(self):
        s = self.s
        i = s['id']
        out = ['extern argus_option_t tbl_%s_%d[];' % (i, n) for n in range(len(s['levels']))] if s.get('forward') else []
        for n in reversed(range(len(s['levels']))):
            ents = [self.entry(e) for e in s['levels'][n]]
            out.append('ARGUS_OPTIONS(tbl_%s_%d,\n    %s,\n)' % (i, n, ',\n    '.join(ents)))
        out.append('static argus_t init_%s(const char *p, const char *v) { return argus_init(tbl_%s_0, p, v); }' % (i, i))
        out.append('static vt_table_t tabs_%s[] = {%s{0, 0}};' % (
            i, ''.join('{tbl_%s_%d, sizeof tbl_%s_%d}, ' % (i, n, i, n) for n in range(len(s['levels'])))))
        out.append('vt_schema_t sch_%s = {%s, init_%s, tabs_%s};' % (i, cstr(i), i, i))
        return '\n'.join(self.pre + out) + '\n'


def emit_all(schemas):
    """C text of one translation unit holding these schemas"""
    return '#include "driver.h"\n' + '\n'.join(Emitter(s).emit() for s in schemas)


def registry(schemas):
    return ('#include "driver.h"\n' + ''.join('extern vt_schema_t sch_%s;\n' % s['id'] for s in schemas) +
            'vt_schema_t *vt_schemas[] = {' + ''.join('&sch_%s, ' % s['id'] for s in schemas) + '0};\n')


def opt_name(e):
    """name under which an entry is addressed"""
    if e['k'] == 'opt':
        return e['l'] if e['l'] is not None else e['s']
    if e['k'] == 'help':
        return 'help'
    if e['k'] == 'version':
        return 'version'
    return e.get('name')
