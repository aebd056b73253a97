"""C22: predefined patterns accept exactly their documented format."""
from ..formats import FORMATS, mutate

RULE = ('for each of the 20 predefined patterns, generated members of the format (with its numeric and length boundaries) and mutations of '
        'them, given as option, as positional and through the environment; the verdict is compared with a recogniser written from the '
        'format and must be the same from every source; non-trivial: the recogniser decides the text')
BUDGET = {'quick': 480000, 'thorough': 7200000}
NO_RANGES = True
INVALID = 29


def table(i, name):
    vre = 'V_RE_' + FORMATS[name][2]
    re_ = 'ARGUS_RE_' + name
    return {'id': 's%d' % i, 'debug': False, 'levels': [[
        {'k': 'help'},
        {'k': 'opt', 't': 'str', 's': 'x', 'l': 'value', 'help': 'value', 'env': 'VAL', 'vals': [{'v': 'regex', 're': re_}]},
        {'k': 'opt', 't': 'str', 's': 'y', 'l': 'other', 'help': 'value', 'vals': [{'v': 'regex', 'macro': vre}]},
        {'k': 'pos', 't': 'str', 'name': 'item', 'help': 'value', 'optional': True, 'env': 'ITEM', 'vals': [{'v': 'regex', 'macro': vre}]}]]}


def schemas(rng, tier):
    return [table(i, n) for i, n in enumerate(FORMATS)]


def cases(rng, schemas, n, ctx):
    names = list(FORMATS)
    for _ in range(n):
        i = rng.randrange(len(names))
        rec, gen, _m = FORMATS[names[i]]
        r = rng.random()
        if r < 0.5:
            s = gen(rng)
        elif r < 0.92:
            s = mutate(rng, gen(rng))
        elif r < 0.97:
            s = FORMATS[rng.choice(names)][1](rng)
        else:
            s = ''.join(chr(rng.randint(1, 255)) for _ in range(rng.randint(0, 12)))
        ops = [['I', 0, 's%d' % i, 'prog', '1']]
        ways = [['--value=' + s], ['--value', s], ['--other=' + s], ['-y', s], ['--', s], ['env', 'VAL'], ['env', 'ITEM']]
        if s:
            ways.append(['-x' + s])
        if s and s[0] != '-':
            ways.append([s])
        for w in rng.sample(ways, 4):
            if w[0] == 'env':
                ops += [['E', w[1], s], ['A', 0, 'prog'], ['U', w[1]], ['F', 0]]
            else:
                ops += [['A', 0, 'prog'] + w, ['F', 0]]
        yield {'runs': [ops], 'meta': {'n': names[i], 's': s}}


def judge(case, ress, ctx):
    ops = case['runs'][0]
    res = ress[0]
    crash = res.crash(len(ops))
    if crash:
        return [('crash', crash)], 'crash', True
    n, s = case['meta']['n'], case['meta']['s']
    want = FORMATS[n][0](s)
    bad = []
    codes = [int(res.ops[i].fields[0]) for i, op in enumerate(ops) if op[0] == 'A']
    got = [c == 0 for c in codes]
    ctx.see('verdicts', len(got))
    if len(set(got)) > 1:
        bad.append(('source/' + n, 'verdicts %s differ between sources for %r' % (codes, s)))
    elif want is not None and got[0] != want:
        bad.append((('refused/' if want else 'accepted/') + n, '%r %s' % (s, 'refused with %d' % codes[0] if want else 'accepted')))
    elif not got[0] and any(c != INVALID for c in codes):
        bad.append(('code/' + n, '%r refused with %s' % (s, codes)))
    return bad, '%s/%s/%s' % (n, want, got[0]), want is not None
