"""C07: array options hold exactly the listed elements."""
from .. import gen
from ..common import script
from ..sim import Sim, sig_of

RULE = ('one to many occurrences of string, integer and float array options with every combination of the sorted and unique flags, '
        'up to thousands of elements, ranges in both directions, empty items, repetitions, near-equal floats and malformed items; '
        'the stored sequence is compared element by element with the reference; non-trivial: an array option occurs')
BUDGET = {'quick': 180000, 'thorough': 2700000}


def schemas(rng, tier):
    out = []
    n = 0
    for t in ('astr', 'aint', 'afloat'):
        for fl in ([], ['FLAG_SORTED'], ['FLAG_UNIQUE'], ['FLAG_SORTED', 'FLAG_UNIQUE']):
            ents = [{'k': 'help'},
                    {'k': 'opt', 't': t, 's': 'a', 'l': 'arr', 'help': 'x', 'flags': fl},
                    {'k': 'opt', 't': t, 's': 'b', 'l': 'brr', 'help': 'x', 'flags': fl, 'env': 'EARR'},
                    {'k': 'opt', 't': 'flag', 's': 'f', 'l': 'flag', 'help': 'x'},
                    {'k': 'opt', 't': 'aint', 's': 'c', 'l': 'crr', 'help': 'x'}]
            sub = {'k': 'sub', 'name': 'run', 'help': 'x', 'level': 1}
            lv1 = [{'k': 'help'}, {'k': 'opt', 't': t, 's': 'a', 'l': 'arr', 'help': 'x', 'flags': fl + ['FLAG_REQUIRED'] if 0 else fl}]
            out.append({'id': 's%d' % n, 'levels': [ents + [sub], lv1], 'debug': False})
            n += 1
    return out


def occurrence(rng, t, bad):
    r = rng.random()
    if r < 0.08:
        n = rng.choice([7, 8, 9, 15, 16, 17, 31, 33, 64, 65, 100])
    elif r < 0.09:
        n = rng.choice([500, 1500])
    else:
        n = rng.choice([1, 1, 2, 3, 4, 5, 6])
    if t == 'aint' and r > 0.9:
        a = rng.randint(-50, 50)
        return '%d%s%d' % (a, rng.choice('-:'), a + rng.choice([0, 1, -1, 7, 8, 9, 40, -40, 300, -1000]))
    if t == 'astr' and r > 0.93:
        pool = ['', 'a', 'b', 'a', 'B', 'aa', 'ab', '\xe9', 'z', '0', '10', '9']
        items = [rng.choice(pool) for _ in range(n)]
        if any(items):
            s = ','.join(items)
            return s
    if t == 'afloat' and r > 0.9:
        # clusters of equal, near-equal and clearly different values in any order
        base = [rng.choice([0, 1, -1, 5, 0.1, 1000, -1e6, 1e9, 4e12]) for _ in range(rng.choice([1, 3]))]
        return ','.join(rng.choice(['%.9f', '%.3f', '%.1f']) % (rng.choice(base) + rng.choice([0, 0, 1e-9, 0.001, 0.5])) for _ in range(n))
    return gen.coll_text(rng, t, bad, n)


def cases(rng, schemas, n, ctx):
    for _ in range(n):
        s = rng.choice(schemas)
        es = [e for e in s['levels'][0] if e['k'] == 'opt']
        args, env = [], {}
        for _ in range(rng.choice([1, 1, 2, 3, 5, 9])):
            e = rng.choice(es[:2] if rng.random() < 0.8 else es)
            v = None if e['t'] == 'flag' else occurrence(rng, e['t'], rng.random() < 0.04)
            args += gen.spell(rng, e, v)
        if rng.random() < 0.2:
            args.append('run')
            for _ in range(rng.choice([1, 2])):
                e = s['levels'][1][1]
                args += gen.spell(rng, e, occurrence(rng, e['t'], rng.random() < 0.04))
        if rng.random() < 0.1:
            env['EARR'] = occurrence(rng, es[0]['t'], rng.random() < 0.1)
        ops, _ = script(s, args, env, what='GKS')
        yield {'runs': [ops]}


def judge(case, ress, ctx):
    s = Sim(case, ress, ctx, ('status', 'value', 'count', 'iter')).go()
    r = s.results[0] if s.results else None
    sig = sig_of(r)
    if r is not None and r.kind == 'ok':
        for st in r.state[0]:
            if st.provided and isinstance(st.value, list):
                k = len(st.value)
                sig += '/%s%s:%s' % (st.e['t'], ''.join(f[5] for f in st.e.get('flags', [])),
                                     '0' if k == 0 else '1-8' if k <= 8 else '9-64' if k <= 64 else '65+')
    return s.bad, sig, True
