"""C15: path lookup and accessors agree with what was parsed."""
from .. import gen
from ..common import make_schemas, script
from ..schema import opt_name, COLL
from ..sim import Sim, sig_of, kind_of

RULE = ('after successful parses of command trees whose levels share option names, queries by plain name, root path, dotted path, '
        'wrong, partial and prefix paths, element accesses at and past the end, present and absent keys and iterators; non-trivial: '
        'queries were made')
BUDGET = {'quick': 100000, 'thorough': 1500000}
NAMES = ['out', 'in', 'tag', 'ta', 'tags', 'map', 'num', 'n', 'verbose', 'help', 'out-dir']


def schemas(rng, tier):
    out = make_schemas(rng, 432 if tier == 'quick' else 768, levels=3, maxsub=3, nopts=(2, 6), p_vals=0.0, p_req=0.0, p_default=0.3,
                       npos=(0, 2), types=['flag', 'str', 'int', 'astr', 'aint', 'afloat', 'mstr', 'mint', 'mbool', 'float', 'bool'], p_version=0.1)
    # the same few names on every level
    for s in out:
        for lv in s['levels']:
            used = {opt_name(e) for e in lv} | {'help'}
            for e in lv:
                if e['k'] == 'opt' and e['l'] and rng.random() < 0.8:
                    c = [x for x in NAMES if x not in used]
                    if c:
                        used.discard(e['l'])
                        e['l'] = rng.choice(c)
                        used.add(e['l'])
    return out


def paths(rng, s, r):
    names = [opt_name(e) for lv in s['levels'] for e in lv if e['k'] in ('opt', 'pos', 'sub', 'help')]
    subs = [e['name'] for lv in s['levels'] for e in lv if e['k'] == 'sub'] or ['run']
    chain = [e['name'] for e in r.chain]
    n = rng.choice(names + NAMES)
    k = rng.random()
    if k < 0.25:
        return n
    if k < 0.4:
        return '.' + n
    if k < 0.7:
        d = rng.randint(1, max(1, len(chain)))
        lv = r.levels[min(d, len(chain))]
        own = [opt_name(e) for e in s['levels'][lv] if e['k'] in ('opt', 'pos')]
        if own and rng.random() < 0.7:
            n = rng.choice(own)
        return '.'.join(chain[:d] + [n])
    if k < 0.85 and chain:
        # damaged chains
        c = chain[:rng.randint(1, len(chain))]
        i = rng.randrange(len(c))
        c[i] = rng.choice([c[i][:-1], c[i] + 'x', rng.choice(subs), gen.upper(c[i])])
        return '.'.join(c + [n])
    return rng.choice([n + 'x', n[:-1] or 'q', '..' + n, n + '.', '', '.', '.'.join(chain[1:] + [n]) or 'q', '.'.join([rng.choice(subs), n]),
                       'nope.' + n, '.'.join(['a'] * 12 + [n]), '.' + '.'.join(chain + [n]), '.'.join(chain) or 'q', n + '..' + n])


def cases(rng, schemas, n, ctx):
    while n > 0:
        s = rng.choice(schemas)
        g = gen.Args(rng, s, p_bad=0.0, p_junk=0.0, maxopts=5, p_sub=0.85)
        args = g.make()
        ops, r = script(s, args, what='', free=False)
        if r.kind != 'ok':
            continue
        n -= 1
        from ..model import Parse
        p = Parse(s)
        p.r = r
        for _ in range(rng.randint(5, 25)):
            path = paths(rng, s, r)
            st = p.resolve(path)
            if path in ('',) or path.endswith('.') or '..' in path:
                pass
            t = st.e.get('t') if st is not None else None
            kd = kind_of(t) if t else '-'
            q = rng.random()
            if t in COLL and q < 0.75 or q < 0.15:
                nel = len(st.value) if t in COLL else 2
                if q < 0.3:
                    ops.append(['X', 0, path, str(rng.choice([0, max(0, nel - 1), nel, nel + 1, 2**32, 2**64 - 1, rng.randint(0, nel + 1)])), kd])
                elif q < 0.5:
                    keys = list(st.value) if t and t[0] == 'm' and st.value else ['k']
                    key = rng.choice(keys)
                    ops.append(['M', 0, path, rng.choice([key, key, key + 'x', key[:-1], '', 'nokey', gen.upper(key)]), kd])
                elif t and t[0] == 'm' and q < 0.65:
                    ops.append(['Y', 0, path, kd])
                else:
                    ops.append(['T', 0, path, kd if t and t[0] != 'm' else '-'])
            else:
                ops.append([rng.choice('GGSK'), 0, path] + ([]))
                if ops[-1][0] == 'G':
                    ops[-1].append(kd if t not in COLL else '-')
        ops.append(['F', 0])
        yield {'runs': [ops]}


def judge(case, ress, ctx):
    s = Sim(case, ress, ctx, ('status', 'value', 'count', 'set', 'path', 'iter')).go()
    r = s.results[0] if s.results else None
    return s.bad, sig_of(r), len(case['runs'][0]) > 3
