"""C27: what the help announces is what parsing enforces.

The help of every level on the way to a command is printed and read back as a user would read it; every claim found in it (names, bounds,
choices, default, variable, required) is then put to the parser. The tables only say which accessor fits an element and what its type is.
"""
import re

from .. import gen, helpfmt
from ..common import make_schemas
from ..schema import ARRAYS, COLL, MAPS, VARIADIC, opt_name
from ..sim import dec, kind_of, passes, path_of
from .c16 import chain_to

RULE = ('the help of random tables is read back entry by entry, and each announced name, bound, choice, default, variable and marker is put to '
        'the parser: values on and beside every bound, every choice and a stranger, nothing given, the variable set, a required one left out; '
        'texts of the validators of the program itself are compared and their release counted; non-trivial: a claim was read or probed')
BUDGET = {'quick': 24000, 'thorough': 360000}


def schemas(rng, tier):
    n = 400 if tier == 'quick' else 600
    kw = dict(p_vals=0.6, p_req=0.12, p_default=0.4, p_env=0.4, p_group=0.25, p_excl=0.0, p_hidden=0.1, p_hint=0.1, p_dep_flags=0.1,
              p_env_override=0.3, npos=(0, 3))
    out = make_schemas(rng, n, 's', levels=0, nopts=(1, 6), **kw) + make_schemas(rng, n // 2, 't', levels=2, maxsub=2, nopts=(1, 4), **kw)
    for s in out:
        for lv in s['levels']:
            for e in lv:
                if 'FLAG_HIDDEN' in e.get('flags', []) and 'FLAG_REQUIRED' in e['flags']:
                    e['flags'].remove('FLAG_REQUIRED')      # a requirement nobody could read
        if rng.random() < 0.35:
            gen.formatters(rng, s, 0.4)
    return out


def cases(rng, schemas, n, ctx):
    for _ in range(n):
        s = rng.choice(schemas)
        lv = rng.randrange(len(s['levels']))
        way = [0]
        for c in chain_to(s, lv):
            way.append(next(e['level'] for e in s['levels'][way[-1]] if e['k'] == 'sub' and e['name'] == c))
        pre = rng.choice(gen.PREFIXES)
        lay = [str(rng.choice([2000, 100000])), str(rng.choice([10, 25, 30, 40])), str(rng.choice([1, 2, 4])), rng.choice(['20', '20', '0', '100']),
               rng.choice('01')]
        runs = []
        for i in way:
            ops = [['m'], ['I', 0, s['id'], 'prog', '1.0'], ['L', 0] + lay]
            if pre is not None:
                ops.append(['C', 0, 'prefix', pre])
            ops += [['H', 0]] if i == 0 and rng.random() < 0.5 else [['A', 0, 'prog'] + chain_to(s, i) + ['--help']]
            runs.append(ops + ([['F', 0], ['q']] if ops[-1][0] == 'H' else []))
        yield {'runs': runs, 'meta': {'way': way, 'lay': lay, 'pre': pre, 'seed': rng.getrandbits(32)}}


ENTRY = re.compile(r'(-(?P<s>.), --(?P<l>[^ ]+)|--(?P<l2>[^ ]+)|-(?P<s2>[^ ])|<(?P<req>[^ >]+)>|\[(?P<opt>[^ \]]+)\]|(?P<cmd>[^ -][^ ]*))'
                   r'( <(?P<hint>.*?)>)? ?- (?P<desc>.*)$', re.S)


def read_help(out, ents, indent):
    """[(entry of the table, match)] of everything that looks like an entry"""
    blocks = []
    for line in out.split('\n'):
        if not line.strip():
            continue
        if line[:1] != ' ':
            blocks.append(None)
        elif line.startswith(' ' * indent) and line[indent:indent + 1] not in (' ', '') and not line[indent:].startswith('- '):
            blocks.append(line[indent:])
        elif blocks and blocks[-1] is not None:
            blocks[-1] += ' ' + line.strip()
    found = []
    for b in blocks:
        m = b and ENTRY.match(re.sub(' +', ' ', b))
        if not m:
            continue
        g = m.groupdict()
        long, short, pos = g['l'] or g['l2'], g['s'] or g['s2'], g['req'] or g['opt']
        for e in ents:
            if e['k'] == 'opt' and (long is not None and e['l'] == long or long is None and short is not None and e['s'] == short) or \
                    e['k'] == 'pos' and pos is not None and pos in (e['name'], e['name'] + '...'):
                found.append((e, g))
                break
    return found


def claims(e, g):
    """what the help says about an entry"""
    c = {'names': [x for x in (g['s'] or g['s2'], g['l'] or g['l2']) if x], 'lims': [], 'default': None, 'env': None}
    d = g['desc']
    m = re.search(r'[(,] ?env: (\S+?)\)', d)
    if m:
        c['env'] = m.group(1)
    m = re.search(r'\(default: (.*?)(, env: \S+)?\)( \(|$)', d)
    if m:
        c['default'] = m.group(1)
    c['required'] = '(required)' in d
    for a, b in re.findall(r'\(range: (-?\d+)-(-?\d+)[,)]', d):
        c['lims'].append(('range', int(a), int(b)))
    for a, b in re.findall(r'\((\d+)-(\d+) chars[,)]', d):
        c['lims'].append(('length', int(a), int(b)))
    for a, b in re.findall(r'\(count: (\d+)-(\d+)[,)]', d):
        c['lims'].append(('count', int(a), int(b)))
    tail = d.partition('[')
    m = re.search(r' \[(.*)\]', d)
    if m and tail[1]:
        c['lims'].append(('choice', m.group(1).split('|')))
    c['opaque'] = bool(re.search(r'\(pattern: ', d)) or any(v['v'] == 'rec' for v in e.get('vals') or [])
    h = g['hint']
    if h is not None and e.get('hint') is None:
        if e['t'] in ARRAYS:
            h = h.removesuffix(',...')
        elif e['t'] in MAPS:
            h = h.removeprefix('KEY=').removesuffix(',...')
        m = re.fullmatch(r'(-?\d+)-(-?\d+)', h)
        if m and e['t'] in COLL:
            c['lims'].append(('count', int(m.group(1)), int(m.group(2))))
        elif m and e['t'] in ('int', 'float'):
            c['lims'].append(('range', int(m.group(1)), int(m.group(2))))
        elif re.fullmatch(r'(\d+)-(\d+) chars', h):
            a, b = re.fullmatch(r'(\d+)-(\d+) chars', h).groups()
            c['lims'].append(('length', int(a), int(b)))
        elif h not in ('NUM', 'STR', 'FLOAT', 'BOOL', 'VALUE'):
            if any(v['v'] in ('regex', 'rec') for v in e.get('vals') or []):
                c['opaque'] = True
            else:
                c['lims'].append(('choice', h.split('|')))
    return c


def admits(e, c, v):
    """whether the help says that this value, or list of values, is accepted"""
    for x in c['lims']:
        if x[0] == 'range' and not x[1] <= v <= x[2]:
            return False
        if x[0] == 'length' and not x[1] <= len(v) <= x[2]:
            return False
        if x[0] == 'count' and not x[1] <= len(v) <= x[2]:
            return False
        if x[0] == 'choice' and v not in [w if e['t'] == 'str' else int(w) if e['t'] == 'int' else float(w) for w in x[1]]:
            return False
    return True


def candidates(rng, e, c):
    """values on and beside everything announced"""
    t = e['t']
    out = []
    nums = [n for x in c['lims'] if x[0] in ('range', 'length', 'count') for n in x[1:]]
    if t == 'flag':
        return [True]
    if t == 'bool':
        return [True, False]
    if t == 'int':
        out = [n + k for n in nums for k in (-1, 0, 1)] + [int(w) for x in c['lims'] if x[0] == 'choice' for w in x[1]] + [4, 0, 77, -3]
        return [n for n in out if -2**63 <= n < 2**63]
    if t == 'float':
        return [n + k for n in nums for k in (-0.5, 0.0, 0.5)] + [float(w) for x in c['lims'] if x[0] == 'choice' for w in x[1]] + [4.5, -77.0]
    if t == 'str':
        out = ['x' * (n + k) for n in nums for k in (-1, 0, 1)] + [w for x in c['lims'] if x[0] == 'choice' for w in x[1]]
        out += [w + 'x' for w in out[-1:]] + ['xyzxyz', 'q', 'zz']
        return [w for w in out if w]
    ns = [n + k for n in nums for k in (-1, 0, 1)] + [1, 3]
    kind = {'astr': 's', 'vstr': 's', 'mstr': 's', 'aint': 'i', 'vint': 'i', 'mint': 'i', 'mbool': 'b'}.get(t, 'f')
    for n in ns:
        if 0 < n <= 60:
            vals = ['w%02d' % i if kind == 's' else i + 1 if kind == 'i' else i + 1.5 for i in range(n)]
            if t in MAPS and ('FLAG_UNIQUE_VALUE' in e.get('flags', []) or kind == 'b'):
                if kind == 'b' and n > 2 and 'FLAG_UNIQUE_VALUE' in e.get('flags', []):
                    continue
                vals = vals if kind != 'b' else [i % 2 == 0 for i in range(n)]
            out.append([('k%02d' % i, v) for i, v in enumerate(vals)] if t in MAPS else vals)
    return out


def text_of(e, v):
    t = e['t']

    def one(x):
        return ('true' if x else 'false') if isinstance(x, bool) else repr(x) if isinstance(x, float) else str(x)
    if t in MAPS:
        return ','.join('%s=%s' % (k, one(x)) for k, x in v)
    if isinstance(v, list):
        return ','.join(one(x) for x in v)
    return one(v)


def problem_of_texts(schema, ents, found, m):
    """what the validators of the program say about themselves"""
    bad = []
    short, spaces = int(m['lay'][3]), m['lay'][4] == '1'
    for e, g in found:
        vs = e.get('vals') or []
        if not any(v['v'] == 'rec' for v in vs):
            continue
        h, used = helpfmt.hint_text(e, short, spaces)
        want = helpfmt.description(schema, m['pre'], e, short, spaces)
        if helpfmt.squash(want) != helpfmt.squash(g['desc'].partition("Run '")[0]) and e['t'] != 'custom':
            bad.append(('text', '%s: help says %r, expected %r' % (opt_name(e), g['desc'], want)))
        if (h is None) != (g['hint'] is None) or h is not None and helpfmt.squash(h) != helpfmt.squash(g['hint']):
            bad.append(('hint', '%s: help shows hint %r, expected %r' % (opt_name(e), g['hint'], h)))
    return bad


def read_all(case, ress, ctx):
    m = case['meta']
    schema = ctx.schemas[case['runs'][0][1][2]]
    out = []
    for lv, ops, res in zip(m['way'], case['runs'], ress):
        i = next(k for k, op in enumerate(ops) if op[0] in 'AH')
        txt = res.ops[i].out
        if ops[i][0] == 'A':
            txt = txt.partition('\n')[2]
        out.append((lv, read_help(txt, schema['levels'][lv], int(m['lay'][2]))))
    return schema, out


def judge(case, ress, ctx):
    for ops, res in zip(case['runs'], ress):
        crash = res.crash(len(ops))
        if crash:
            return [('crash', crash)], 'crash', True
    if 'probe' in case['meta']:
        return judge_probe(case, ress[0], ctx)
    schema, levels = read_all(case, ress, ctx)
    bad = []
    n = 0
    for lv, found in levels:
        ents = schema['levels'][lv]
        bad += problem_of_texts(schema, ents, found, case['meta'])
        for e, g in found:
            try:
                c = claims(e, g)
                [v for v in candidates(None, e, c) if admits(e, c, v)]
            except (ValueError, TypeError) as x:
                bad.append(('claim', '%s: the help says what cannot be read for its type: %r (%s)' % (opt_name(e), g, x)))
        for e in ents:
            if e['k'] == 'pos' or e['k'] == 'opt' and 'FLAG_HIDDEN' not in e.get('flags', []):
                k = sum(1 for x, _ in found if x is e)
                n += k
                if k != 1:
                    bad.append(('entry', '%s found %d times in the help of its level' % (opt_name(e), k)))
    for ops, res in zip(case['runs'], ress):
        if ops[-1][0] == 'q' and int(res.ops[len(ops) - 1].fields[0]):
            bad.append(('held', '%s heap blocks still held after help and argus_free' % res.ops[len(ops) - 1].fields[0]))
    ctx.see('entries read', n)
    return bad, 'help/levels%d/n%d' % (len(levels), min(n, 12)), n > 0


def followups(case, ress, ctx):
    import random
    m = case['meta']
    if 'probe' in m:
        return []
    rng = random.Random(m['seed'])
    schema, levels = read_all(case, ress, ctx)
    said = {}       # (level, index) -> claims
    for lv, found in levels:
        for e, g in found:
            said[id(e)] = claims(e, g)
    usable = {}
    for lv, found in levels:
        for e, g in found:
            c = said[id(e)]
            ok = [v for v in candidates(rng, e, c) if admits(e, c, v)] if not c['opaque'] else []
            usable[id(e)] = ok
            if c['required'] and not ok:
                return []       # nothing known that would satisfy it
    chain = chain_to(schema, m['way'][-1])
    leaf = m['way'][-1]
    if any(e['k'] == 'sub' for e in schema['levels'][leaf]) and any(e['k'] == 'pos' and not e.get('optional') for e in schema['levels'][leaf]):
        return []

    def spelled(e, v, name=None):
        t = text_of(e, v) if e['t'] != 'flag' else None
        one = dict(e)
        if name is not None:
            one['s'], one['l'] = (name, None) if name == e['s'] and len(name) == 1 else (None, name)
        return gen.spell(rng, one, t)

    def line(give=None, value=None, leave=None, name=None):
        """arguments meeting every announced requirement, plus one more element"""
        toks = []
        for k, (lv, found) in enumerate(levels):
            if k:
                toks.append(chain[k - 1])
            poss = []
            opts = []
            ps = [e for e in schema['levels'][lv] if e['k'] == 'pos']
            need = max([i for i, e in enumerate(ps) if e is give or id(e) in said and said[id(e)]['required'] and e is not leave] or [-1])
            for i, e in enumerate(ps[:need + 1]):
                if e is leave:
                    return None
                if e is give:
                    v = value
                elif usable.get(id(e)):
                    v = rng.choice(usable[id(e)])
                else:
                    return None
                if e['t'] in VARIADIC:
                    poss += [text_of({'t': 'str'}, x) for x in v]
                else:
                    poss.append(text_of(e, v))
            for e, g in found:
                if e['k'] == 'opt' and e is not leave and (e is give or said[id(e)]['required']):
                    opts += spelled(e, value, name) if e is give else spelled(e, rng.choice(usable[id(e)]))
            if poss and any(x['k'] == 'sub' for x in schema['levels'][lv]):
                return None
            if poss and (rng.random() < 0.3 or any(p[:1] in ('-', '') for p in poss)):
                poss.insert(0, '--')
            toks += opts + poss
        return toks

    def probe(kind, e, args, env=None, want=None, ok=True, note=''):
        if args is None:
            return
        lv = next(lv for lv, found in levels if any(x is e for x, _ in found))
        path = path_of(schema, m['way'], [{'name': c} for c in chain], lv, opt_name(e))
        ops = [['I', 0, schema['id'], 'prog', '1.0']]
        if m['pre'] is not None:
            ops.append(['C', 0, 'prefix', m['pre']])
        for k, v in (env or {}).items():
            ops.append(['E', k, v])
        ops.append(['A', 0, 'prog'] + args)
        if ok:
            code = 'T' if e['t'] in ARRAYS or e['t'] in VARIADIC else 'Y' if e['t'] in MAPS else 'G'
            ops += [[code, 0, path, kind_of(e['t'])], ['S', 0, path], ['K', 0, path]]
        ops.append(['F', 0])
        out.append({'runs': [ops], 'meta': {'probe': kind, 'want': want, 'ok': ok, 'at': len(ops) - 4, 't': e['t'], 'name': opt_name(e),
                                            'flags': e.get('flags', []), 'note': note}})

    out = []
    everyone = [(lv, e) for lv, found in levels for e, g in found]
    if not everyone:
        return []
    for lv, e in rng.sample(everyone, min(len(everyone), 4)):
        c = said[id(e)]
        if c['opaque'] and not c['default']:
            continue
        pool = candidates(rng, e, c) if not c['opaque'] else []
        rng.shuffle(pool)
        for v in pool[:3]:
            ok = admits(e, c, v)
            if e['k'] == 'opt' and c['names']:
                probe('value', e, line(e, v, name=rng.choice(c['names'])), want=v, ok=ok, note=repr(c['lims']))
            elif e['k'] == 'pos':
                probe('value', e, line(e, v), want=v, ok=ok, note=repr(c['lims']))
        if c['required']:
            probe('required', e, line(leave=e), ok=False, note='required')
        else:
            probe('default', e, line(), want=c['default'], ok=True, note='default: %s' % c['default'])
        if c['env'] is not None and pool and e['t'] not in VARIADIC and (e['k'] == 'opt' or not c['required']):
            v = rng.choice(pool)
            if e['t'] == 'flag':
                v = True
            same = [x for _, x in everyone if x is not e and said[id(x)]['env'] == c['env']]
            if not same:
                # hidden elements may read the same variable; they cannot be seen from here
                hidden = [x for _, lx in enumerate(m['way']) for x in schema['levels'][lx]
                          if x['k'] in ('opt', 'pos') and id(x) not in said and (x.get('env') or 'FLAG_AUTO_ENV' in x.get('flags', []))]
                if not hidden:
                    probe('env', e, line(leave=e) if c['required'] else line(), env={c['env']: text_of(e, v)}, want=v, ok=admits(e, c, v),
                          note='env: %s=%s %r' % (c['env'], text_of(e, v), c['lims']))
    return out


def judge_probe(case, res, ctx):
    m = case['meta']
    ops = case['runs'][0]
    t = m['t']
    at = next(k for k, op in enumerate(ops) if op[0] == 'A')
    rec = res.ops[at]
    ctx.see('claims put to the parser: ' + m['probe'])
    sig = '%s/%s/%s/%s' % (m['probe'], t, 'ok' if m['ok'] else 'refused', m['note'].split(',')[0].strip('[(') if m['probe'] == 'value' else '')
    if rec.exited is not None:
        return [('exit', '%s: the parse ended the process' % m['name'])], sig, True
    rc = int(rec.fields[0])
    if m['ok'] != (rc == 0):
        return [(m['probe'], 'help of %s says %s, so %s has to be %s, but status is %d %r' % (
            m['name'], m['note'], ops[at][2:], 'accepted' if m['ok'] else 'refused', rc, rec.err[:200]))], sig, True
    if not m['ok']:
        return [], sig, True
    f = res.ops[m['at']].fields
    bad = []
    want = m['want']
    given = m['probe'] != 'default'
    if t in COLL:
        got = passes(f, t)[0][0]
        got = [tuple(x) if t in MAPS else x for x in got]
        exp = [tuple(x) if t in MAPS else x for x in want] if want is not None else []
        if sorted(map(repr, got)) != sorted(map(repr, exp)):
            bad.append((m['probe'] + '-value', 'help of %s says %s, %s gives %r' % (m['name'], m['note'], ops[at][2:], got)))
    else:
        v = res.val(m['at'])
        got = dec(v.raw, v.s, t)
        if given:
            same = got == want
        elif want is None:
            same = got in (None, 0, False)
        elif t == 'str':
            same = got == (None if want == 'null' else want[1:-1]) if want[:1] != '"' or got is None else helpfmt.squash(want) == helpfmt.squash('"%s"' % got)
        elif t == 'int':
            same = want == '%d' % got
        elif t == 'float':
            same = want == '%.2f' % got
        else:
            same = want == ('true' if got else 'false')
        if not same:
            bad.append((m['probe'] + '-value', 'help of %s says %s, %s gives %r' % (m['name'], m['note'], ops[at][2:], got)))
    isset, count = res.n(m['at'] + 1), res.n(m['at'] + 2)
    if bool(isset) != given and (given or want is None):
        bad.append((m['probe'] + '-set', '%s: is_set is %d after %s' % (m['name'], isset, ops[at][2:])))
    return bad, sig, True
