"""C01: no memory error, undefined behaviour or hang on any command line."""
import re

from .. import gen
from ..common import make_schemas
from ..formats import FORMATS, mutate
from ..model import Parse
from ..schema import ARRAYS, MAPS, VARIADIC, opt_name
from ..sim import kind_of

LEVEL = 'exploration'
RULE = ('random tables using every feature, hostile command lines, environments and display settings, every public call in any order and '
        'with wrong names, indexes and keys, before, between and after parses; run under AddressSanitizer and UBSan, a quarter under '
        'MemorySanitizer; non-trivial: at least one parse was given arguments')
BUDGET = {'quick': 180000, 'thorough': 2700000}
VARIANTS = ['asan', 'msan']
BATCH = 200
ASSUME = ['PCRE2 is not instrumented; regular expressions are therefore not exercised under MemorySanitizer',
          'integer ranges longer than 100000 elements are not given, as they only exhaust memory']

ODD = ['', ' ', '%s%s%n', 'tab\there', 'two\nlines', 'x' * 300, 'w ' * 200, 'caf\xc3\xa9 na\xc3\xafve', '\x1b[31mred', '--', '-', '%', '\\', '"q"',
       "it's", '\xff\xfe\xfd', 'a' * 79, 'b' * 80, 'c' * 81, 'trailing ', ' leading', '\n', 'many\n\n\nbreaks\n']


def dress(rng, s):
    """texts a table may hold that ordinary ones do not"""
    for lv in s['levels']:
        names = {opt_name(e) for e in lv if e['k'] not in ('group', 'gend')}
        for e in lv:
            if e['k'] in ('help', 'version', 'gend'):
                continue
            if e['k'] == 'group':
                if rng.random() < 0.2:
                    e['name'] = rng.choice([x for x in ODD if x not in names])
                continue
            if rng.random() < 0.25:
                e['help'] = rng.choice(ODD)
            if e['k'] == 'opt' and rng.random() < 0.15:
                e['hint'] = rng.choice(ODD)
            if e['k'] in ('opt', 'pos') and e.get('t') == 'str' and 'default' in e and not e.get('vals') and rng.random() < 0.4:
                e['default'] = rng.choice(ODD)
            if e['k'] == 'opt' and e.get('t') == 'str' and 'default' not in e and not e.get('vals') and rng.random() < 0.4:
                f = rng.choice(list(FORMATS))
                e['vals'] = [{'v': 'regex', 're': 'ARGUS_RE_' + f, 'py': '', 'f': f}]
            if e['k'] == 'sub' and rng.random() < 0.1 or e['k'] == 'opt' and e['l'] and rng.random() < 0.04 and not any(
                    opt_name(e) in (o.get('req', []) + o.get('conf', [])) for o in lv):
                n = (opt_name(e) + '-' + rng.choice('xyz') * 600)[:rng.choice([100, 127, 128, 129, 160, 255, 256, 300, 505, 520, 600])]
                if n not in names:
                    names.add(n)
                    e['name' if e['k'] == 'sub' else 'l'] = n
            if e['k'] == 'pos' and rng.random() < 0.1 and not any(e['name'] in (o.get('req', []) + o.get('conf', [])) for o in lv):
                n = rng.choice(['p' * 60, 'with space', 'caf\xc3\xa9', 'UPPER'])
                if n not in names:
                    names.add(n)
                    e['name'] = n
    return s


def schemas(rng, tier):
    n = 192 if tier == 'quick' else 288
    kw = dict(nopts=(1, 9), p_vals=0.3, p_req=0.05, p_default=0.3, p_env=0.3, p_env_override=0.4, p_group=0.3, p_deps=0.2, p_hidden=0.15,
              p_custom=0.15, p_rec=0.1, p_exit_opt=0.04, p_hint=0.2, help_words=(1, 30))
    out = make_schemas(rng, n, 's', levels=3, npos=(0, 3), **kw)
    out += make_schemas(rng, n // 2, 'u', levels=0, npos=(0, 2), p_flags=0.7, p_env=0.4, p_env_override=0.5, nopts=(3, 8),
                        types=['astr', 'aint', 'afloat', 'mstr', 'mint', 'mfloat', 'mbool'], ptypes=['vstr', 'vint', 'vfloat'])
    out += make_schemas(rng, 6, 'w', levels=8, maxsub=1, nopts=(0, 2), npos=(0, 1))
    out += make_schemas(rng, 4, 'x', levels=0, nopts=(40, 60), npos=(0, 0), p_group=0.2)
    return [dress(rng, s) for s in out]


def garbage(rng):
    r = rng.random()
    if r < 0.5:
        return ''.join(chr(rng.randint(1, 255)) for _ in range(rng.randint(0, 12)))
    if r < 0.8:
        return ''.join(rng.choice('--==,,:.0123456789eExX%sn/\\ \tabh\xff') for _ in range(rng.randint(0, 24)))
    if r < 0.97:
        return rng.choice('-=,:.x0%/ ') * rng.choice([1, 2, 3, 31, 32, 33, 63, 64, 127, 128, 255, 256, 511, 512, 1023, 1024])
    return rng.choice('-=,:.x0%/') * rng.choice([4095, 4096, 20000, 100000])


def big_list(rng, t):
    n = rng.choice([7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 65, 128, 129, 500, 2000])
    if t in MAPS:
        return ','.join('k%d=%s' % (rng.randint(0, n), rng.choice(['1', 'true', '0', '2'])) for _ in range(n))
    if t == 'aint' and rng.random() < 0.5:
        a = rng.choice([0, -50, 2**31 - 1 - n, -2**31])
        return '%d%s%d' % ((a, rng.choice('-:'), a + n) if rng.random() < 0.5 else (a + n, rng.choice('-:'), a))
    return ','.join(rng.choice(['1', '2', '3', str(rng.randint(-99, 99))]) for _ in range(n))


SIX = re.compile(r'[0-9]{6}')


def huge(v):
    """may name an integer range of more than a hundred thousand elements"""
    return ('-' in v or ':' in v) and SIX.search(v) is not None and (
        len(v) > 400 or re.search(r'\d{6}[0-9]*[^0-9]*[-:]|[-:][^0-9]*\d{6}', v) is not None)


def hostile(rng, s, args):
    """command line worse than the generator's"""
    args = list(args)
    ents = [e for lv in s['levels'] for e in lv if e['k'] == 'opt']
    for _ in range(rng.choice([0, 1, 1, 2, 5])):
        r = rng.random()
        i = rng.randint(0, len(args))
        if r < 0.3 and args:
            i = rng.randrange(len(args))
            args[i] = mutate(rng, args[i]) if rng.random() < 0.7 else args[i][:rng.randint(0, len(args[i]))]
        elif r < 0.5:
            args.insert(i, garbage(rng))
        elif r < 0.75 and ents:
            e = rng.choice(ents)
            if e['t'] in ARRAYS or e['t'] in MAPS:
                v = big_list(rng, e['t'])
            elif e.get('vals') and 'f' in e['vals'][0]:
                g = FORMATS[e['vals'][0]['f']][1]
                v = g(rng) if rng.random() < 0.6 else mutate(rng, g(rng)) * rng.choice([1, 1, 50])
            else:
                v = garbage(rng)
            n = ('--' + e['l']) if e['l'] else '-' + e['s']
            args[i:i] = rng.choice([[n + '=' + v], [n, v], [n], [n + v]])
        elif r < 0.85 and args:
            del args[rng.randrange(len(args))]
        elif r < 0.93:
            sh = ''.join(e['s'] for e in ents if e['s']) or 'x'
            args.insert(i, '-' + ''.join(rng.choice(sh) for _ in range(rng.choice([2, 5, 40]))))
        else:
            args[i:i] = [garbage(rng)[:40] for _ in range(rng.choice([3, 10, 100]))]
    return [a if not huge(a) else a[:5] for a in args]


def paths(rng, s):
    """names of options, right, wrong and twisted"""
    i = 0
    parts = []
    while True:
        lv = s['levels'][i]
        names = [opt_name(e) for e in lv if e['k'] not in ('group', 'gend')]
        subs = [e for e in lv if e['k'] == 'sub']
        if subs and rng.random() < 0.6:
            e = rng.choice(subs)
            parts.append(e['name'])
            i = e['level']
            continue
        n = rng.choice(names)
        break
    r = rng.random()
    if r < 0.5:
        return '.'.join(parts + [n]) if parts else rng.choice(['.', '']) + n
    if r < 0.6:
        return n
    return rng.choice(['', '.', '..', n + '.', '.' + n + '.', n[:-1], n + 'x', '.'.join(parts[:1]), '.'.join(parts + ['']), garbage(rng)[:200],
                       'a.' * 40 + n, '.'.join(parts + parts + [n]), '%s', gen.upper(n)])


def call(rng, s, c, types):
    w = rng.choice('GGGSKXMTYHWVBRZ')
    if w in 'HWVBR':
        return [w, c]
    if w == 'Z':
        return ['Z', rng.choice([-1, 0, 1, 5, 12, 29, 30, 31, 32, 100, 1000, 2**31 - 1, -2**31])]
    p = paths(rng, s)
    k = types.get(p, '-') if w in 'GXMTY' else None
    if w in 'SK':
        return [w, c, p]
    if w == 'X':
        return [w, c, p, rng.choice([0, 1, 2, 7, 8, 2**31, 2**63, 2**64 - 1]), k]
    if w == 'M':
        return [w, c, p, rng.choice(gen.KEYS + ['', 'k1=', '=']), k]
    return [w, c, p, k]


def string_paths(s):
    """paths certain to reach a string option"""
    out = {}

    def walk(i, parts):
        for e in s['levels'][i]:
            if e['k'] in ('opt', 'pos') and kind_of(e['t'], e.get('handler')) == 's':
                out['.'.join(parts + [opt_name(e)]) if parts else '.' + opt_name(e)] = 's'
            if e['k'] == 'sub':
                walk(e['level'], parts + [e['name']])
    walk(0, [])
    return out


def cases(rng, schemas, n, ctx):
    types = {s['id']: string_paths(s) for s in schemas}
    for _ in range(n):
        s = rng.choice(schemas)
        st = types[s['id']]
        pre = rng.choice(gen.PREFIXES + ['', 'lower', 'A-B', 'P' * 60])
        ops = [['I', 0, s['id'], rng.choice(['prog', 'prog', '', 'a' * 100, '%s']), rng.choice(['1.0', '', None, 'v' * 200])]]
        if rng.random() < 0.6:
            ops.append(['C', 0, 'desc', rng.choice(ODD + [None, 'a program'])])
        if pre is not None:
            ops.append(['C', 0, 'prefix', pre])
        if rng.random() < 0.4:
            d = lambda a: rng.choice(a + [rng.randint(0, 120), rng.choice([0, 1, 2, 1000, 5000])])
            ops.append(['L', 0, d([80, 20, 40]), d([30, 0, 10]), d([2, 0, 8]), d([20, 0, 5, 30]), rng.choice('01')])
        env = gen.environment(rng, s, pre if pre else None, p_set=rng.choice([0, 0, 0.3, 0.8]), p_bad=0.2)
        for k, v in env.items():
            if rng.random() < 0.2:
                v = rng.choice([garbage(rng), '', ',', '=', big_list(rng, rng.choice(['aint', 'mint']))])
            if huge(v):
                v = v[:5]
            ops.append(['E', k, v])
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            for _ in range(rng.choice([0, 0, 0, 2])):
                ops.append(call(rng, s, 0, st))
            g = gen.Args(rng, s, p_bad=rng.choice([0, 0.05, 0.3]), p_junk=rng.choice([0, 0.1]), p_exit=0.03, maxopts=rng.choice([3, 8, 25]))
            args = hostile(rng, s, g.make())
            ops.append(['A', 0] + ([rng.choice(['prog', '', 'x' * 50])] + args if rng.random() > 0.01 else []))
            for _ in range(rng.randint(0, 10)):
                ops.append(call(rng, s, 0, st))
            if rng.random() < 0.8:
                ops.append(['F', 0])
                if rng.random() < 0.3:
                    ops.append(['F', 0])
        yield {'runs': [ops], 'variant': 'msan' if rng.random() < 0.25 else 'asan'}


def judge(case, ress, ctx):
    ops = case['runs'][0]
    res = ress[0]
    crash = res.crash(len(ops))
    ctx.see('calls monitored by ' + case.get('variant', 'asan'), len(res.ops))
    if crash:
        site = re.search(r'\[([^\]]*)\]', crash)
        return [('crash/' + (site.group(1) if site and site.group(1) else crash.split(' in call')[0])[:80], crash)], 'crash', True
    rcs = []
    nargs = 0
    for i, op in enumerate(ops):
        rec = res.ops.get(i)
        if op[0] == 'A' and rec is not None:
            nargs = max(nargs, len(op) - 3)
            rcs.append('exit' if rec.exited is not None else rec.fields[0])
    return [], '%s/%s' % (case.get('variant', 'asan'), '+'.join(rcs[:2])), nargs > 0
