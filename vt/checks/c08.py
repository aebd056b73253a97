"""C08: map options hold exactly the listed pairs."""
from .. import gen
from ..common import script
from ..sim import Sim, sig_of

RULE = ('occurrences of string, integer, float and boolean map options with every combination of sorting and unique-value flags; '
        'repeated keys, values containing "=", empty keys and values, near-equal floats, many keys, malformed pairs; stored pairs '
        'and iteration order compared with the reference; non-trivial: a map option occurs')
BUDGET = {'quick': 240000, 'thorough': 3600000}
FLAGS = [[], ['FLAG_SORTED_KEY'], ['FLAG_SORTED_VALUE'], ['FLAG_UNIQUE_VALUE'], ['FLAG_SORTED_KEY', 'FLAG_UNIQUE_VALUE'],
         ['FLAG_SORTED_VALUE', 'FLAG_UNIQUE_VALUE'], ['FLAG_SORTED_KEY', 'FLAG_SORTED_VALUE']]


def schemas(rng, tier):
    out = []
    for t in ('mstr', 'mint', 'mfloat', 'mbool'):
        for fl in FLAGS:
            ents = [{'k': 'help'},
                    {'k': 'opt', 't': t, 's': 'a', 'l': 'map', 'help': 'x', 'flags': fl, 'env': 'EMAP'},
                    {'k': 'opt', 't': t, 's': 'b', 'l': 'other', 'help': 'x', 'flags': fl},
                    {'k': 'opt', 't': 'flag', 's': 'f', 'l': 'flag', 'help': 'x'}]
            out.append({'id': 's%d' % len(out), 'levels': [ents], 'debug': False})
    return out


def pairs(rng, t, bad, keys, n):
    items = [gen.map_pair(rng, t, keys=[rng.choice(keys)]) for _ in range(n)]
    if bad:
        items[rng.randrange(len(items))] = gen.map_pair(rng, t, True, keys=keys)
    if rng.random() < 0.15 and n > 1:
        items.insert(rng.randrange(len(items) + 1), '')
    return ','.join(items)


def cases(rng, schemas, n, ctx):
    for _ in range(n):
        s = rng.choice(schemas)
        args, env = [], {}
        uniq = 'FLAG_UNIQUE_VALUE' in s['levels'][0][1]['flags']
        used = {}
        k = rng.choice([1, 1, 2, 3, 4])
        many = rng.random() < 0.08
        for _ in range(k):
            e = rng.choice(s['levels'][0][1:3])
            keys = gen.KEYS + ([''] if rng.random() < 0.1 else [])
            if many:
                keys = ['k%d' % i for i in range(rng.choice([7, 8, 9, 17, 40, 200]))]
            nn = rng.choice([1, 2, 3, 5, 8, 9]) if not many else rng.choice([9, 20, 60, 300])
            if uniq:
                keys = [x for x in keys if x not in used.setdefault(id(e), set())]
                if not keys:
                    continue
                rng.shuffle(keys)
                keys = keys[:nn]
                used[id(e)].update(keys)
                items = [gen.map_pair(rng, e['t'], keys=[x]) for x in keys]
                if rng.random() < 0.04:
                    items[rng.randrange(len(items))] = gen.map_pair(rng, e['t'], True, keys=keys)
                v = ','.join(items)
            else:
                v = pairs(rng, e['t'], rng.random() < 0.04, keys, nn)
            args += gen.spell(rng, e, v)
        if rng.random() < 0.1 and not uniq:
            env['EMAP'] = pairs(rng, s['levels'][0][1]['t'], rng.random() < 0.1, gen.KEYS, rng.randint(1, 5))
        ops, r = script(s, args, env, what='GK', free=False)
        if r.kind == 'ok':
            for st in r.state[0]:
                if st.provided and isinstance(st.value, dict):
                    for key in list(st.value)[:3] + [rng.choice(gen.KEYS)]:
                        ops.append(['M', 0, '.' + st.e['l'], key, 's' if st.e['t'] == 'mstr' else '-'])
        ops.append(['F', 0])
        yield {'runs': [ops]}


def judge(case, ress, ctx):
    s = Sim(case, ress, ctx, ('status', 'value', 'count', 'iter')).go()
    r = s.results[0] if s.results else None
    sig = sig_of(r)
    if r is not None and r.kind == 'ok':
        for st in r.state[0]:
            if st.provided and isinstance(st.value, dict):
                k = len(st.value)
                sig += '/%s%s:%s' % (st.e['t'], ''.join(f[5] + f[-1] for f in st.e.get('flags', [])),
                                     '0' if k == 0 else '1-8' if k <= 8 else '9-64' if k <= 64 else '65+')
    return s.bad, sig, True
