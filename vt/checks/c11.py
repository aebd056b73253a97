"""C11: built-in validators admit exactly the declared values."""
from .. import gen
from ..common import make_schemas, script
from ..sim import Sim, sig_of

RULE = ('options and positionals with range, length, count, choice and regular expression validators (single and combined), values '
        'on, just inside and just outside every bound, from the command line, the environment and defaults; verdict and status '
        'compared with the declared sets; non-trivial: a validated option has a value')
BUDGET = {'quick': 320000, 'thorough': 4800000}


def schemas(rng, tier):
    return make_schemas(rng, 576 if tier == 'quick' else 960, levels=1, maxsub=2, nopts=(1, 5), p_vals=0.9, p_req=0.0, p_default=0.35,
                        p_env=0.3, npos=(0, 2), p_bad_default=0.1, p_version=0.1,
                        types=['str', 'str', 'int', 'int', 'float', 'astr', 'aint', 'afloat', 'mstr', 'mint', 'mfloat', 'mbool'],
                        ptypes=['str', 'int', 'float', 'vstr', 'vint', 'vfloat'])


def cases(rng, schemas, n, ctx):
    for _ in range(n):
        s = rng.choice(schemas)
        g = gen.Args(rng, s, p_bad=0.0, p_junk=0.0, maxopts=rng.choice([1, 1, 2, 3]), p_sub=0.4)
        args = g.make()
        env = gen.environment(rng, s, None, p_set=0.15, p_bad=0.0, decoys=False)
        ops, r = script(s, args, env, what='')
        yield {'runs': [ops]}


def judge(case, ress, ctx):
    s = Sim(case, ress, ctx, ('status', 'code')).go()
    r = s.results[0] if s.results else None
    bad = s.bad
    kinds = set()
    if r is not None:
        if r.kind == 'err' and r.why not in ('range', 'length', 'count', 'choice', 'regex'):
            bad = [b for b in bad if b[0] != 'code']
        for lv in r.levels:
            for st in r.state[lv]:
                if st.have:
                    for v in st.e.get('vals', []):
                        kinds.add(v['v'])
                        ctx.see('validated %s on %s' % (v['v'], st.e['t']))
    return bad, sig_of(r).split('/opts')[0] + '/' + '+'.join(sorted(kinds)), bool(kinds)
