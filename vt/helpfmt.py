"""What the help of one level has to show, and the reading of what it shows."""
import re

from .model import Parse
from .schema import ARRAYS, MAPS, VARIADIC, COLL, opt_name

BASE = {'int': 'NUM', 'str': 'STR', 'float': 'FLOAT', 'bool': 'BOOL'}


def squash(s):
    return re.sub(r'\s+', '', s)


def f10(x):
    return '%.10g' % x


def validator_text(v):
    """(text, before, after) of one validator as described, None when it is not described"""
    k = v['v']
    if k == 'range':
        return '%d-%d' % (v['a'], v['b']), '(range: ', ')'
    if k == 'length':
        return '%d-%d chars' % (v['a'], v['b']), '(', ')'
    if k == 'count':
        return '%d-%d' % (v['a'], v['b']), '(count: ', ')'
    if k == 'regex':
        t = v['hint'] if v.get('hint') else v['pattern'] if len(v['pattern']) <= 15 else 'pattern'
        return t, '(pattern: ', ')'
    if k == 'cstr':
        return '|'.join(v['c']), '[', ']'
    if k == 'cint':
        return '|'.join('%d' % c for c in v['c']), '[', ']'
    if k == 'cfloat':
        return '|'.join(f10(c) for c in v['c']), '[', ']'
    if k == 'rec' and v.get('fmt') not in (None, 'NULL'):
        return v['fmt'], '(', ')'
    return None


def default_text(e):
    if 'default' not in e or e['t'] == 'flag' or e['k'] != 'opt' and e['k'] != 'pos':
        return None
    d = e['default']
    if e['t'] == 'str':
        return '"%s"' % d if d is not None else 'null'
    if e['t'] == 'int':
        return '%d' % d
    if e['t'] == 'float':
        return '%.2f' % d
    return 'true' if d else 'false'


def names_text(e):
    """names of an entry as the usage column shows them, without the hint"""
    if e['k'] == 'help':
        return '-h, --help'
    if e['k'] == 'version':
        return '-V, --version'
    if e['k'] == 'opt':
        return ', '.join((['-' + e['s']] if e['s'] else []) + (['--' + e['l']] if e['l'] else []))
    if e['k'] == 'pos':
        n = e['name'] + ('...' if e['t'] in VARIADIC else '')
        return ('[%s]' if e.get('optional') else '<%s>') % n
    return e['name']


def hint_text(e, short=20, spaces=False):
    """the value hint of an option and whether it is a validator's text"""
    if e['k'] != 'opt' or e['t'] == 'flag':
        return None, False
    used = False
    if e.get('hint') is not None:
        h = e['hint']
    else:
        h = BASE.get(e['t'], 'VALUE')
        vs = e.get('vals') or []
        if len(vs) == 1:
            t = validator_text(vs[0])
            if t is not None and len(t[0]) <= short and (spaces or ' ' not in t[0]):
                h, used = t[0], True
    if e['t'] in ARRAYS:
        h += ',...'
    elif e['t'] in MAPS:
        h = 'KEY=' + h + ',...'
    return h, used


def env_text(schema, prefix, e):
    if e['k'] not in ('opt', 'pos'):
        return None
    return Parse(schema, prefix).env_name(e)


def details(schema, prefix, e, short=20, spaces=False):
    """texts that must be shown for an entry besides names and help text, in order"""
    out = []
    h, used = hint_text(e, short, spaces)
    vs = e.get('vals') or []
    if e['k'] != 'opt':
        # positionals: a single short validator counts as a hint although none is shown
        used = False
    if e['k'] in ('opt', 'pos') and not used:
        for v in vs:
            t = validator_text(v)
            if t is not None:
                out.append(('validator', t[0]))
    d = default_text(e)
    if d is not None:
        out.append(('default', 'default: ' + d))
    n = env_text(schema, prefix, e)
    if n is not None:
        out.append(('env', 'env: ' + n))
    fl = e.get('flags', [])
    if e['k'] in ('help', 'version') or 'FLAG_EXIT' in fl:
        out.append(('marker', '(exit)'))
    if 'FLAG_REQUIRED' in fl or e['k'] == 'pos' and not e.get('optional'):
        out.append(('marker', '(required)'))
    if 'FLAG_DEPRECATED' in fl:
        out.append(('marker', '(deprecated)'))
    if 'FLAG_EXPERIMENTAL' in fl:
        out.append(('marker', '(experimental)'))
    return out


BUILTIN = {'help': 'Show help message', 'version': 'Show version information'}


def help_of(e):
    return BUILTIN.get(e['k']) or e['help']


def description(schema, prefix, e, short=20, spaces=False):
    """the whole text after the dash"""
    s = help_of(e)
    h, used = hint_text(e, short, spaces)
    if e['k'] in ('opt', 'pos') and not (used and e['k'] == 'opt'):
        for v in e.get('vals') or []:
            t = validator_text(v)
            if t is not None:
                s += ' ' + t[1] + t[0] + t[2]
    d = default_text(e)
    if d is not None:
        s += ' (default: ' + d + ')'
    n = env_text(schema, prefix, e)
    if n is not None:
        s = s[:-1] + ', env: ' + n + ')' if s.endswith(')') else s + ' (env: ' + n + ')'
    m = [t for k, t in details(schema, prefix, e, short, spaces) if k == 'marker']
    return ' '.join([s] + m) if m else s


def sections(ents):
    """[(heading, [entry, ...])] in the order of display, visible entries only"""
    pos, groups, free, subs = [], {}, [], []
    group = None
    for e in ents:
        k = e['k']
        hidden = 'FLAG_HIDDEN' in e.get('flags', [])
        if k == 'group':
            group = e['name']
        elif k == 'gend':
            group = None
        elif k == 'pos':
            pos.append(e)
        elif hidden:
            pass
        elif k == 'sub':
            subs.append(e)
        elif group is not None:
            groups.setdefault(group, []).append(e)
        else:
            free.append(e)
    out = []
    if pos:
        out.append(('Arguments', pos))
    out += list(groups.items())
    if free:
        out.append(('Options', free))
    if subs:
        out.append(('Commands', subs))
    return out
