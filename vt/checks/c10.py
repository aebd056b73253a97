"""C10: absent options keep their default, present ones are reported as such, stably."""
from .. import gen
from ..common import make_schemas, script
from ..sim import Sim, sig_of, observe

RULE = ('random tables with and without defaults on all levels, sparse command lines and environments; after the parse every '
        'option is read (value, set, count, elements) in random order several times; non-trivial: every case')
BUDGET = {'quick': 100000, 'thorough': 1500000}


def schemas(rng, tier):
    return make_schemas(rng, 432 if tier == 'quick' else 768, levels=2, maxsub=2, nopts=(2, 9), p_vals=0.1, p_req=0.0, p_default=0.5,
                        p_env=0.15, npos=(0, 3), p_group=0.2)


def cases(rng, schemas, n, ctx):
    for _ in range(n):
        s = rng.choice(schemas)
        g = gen.Args(rng, s, p_bad=0.005, p_junk=0.0, maxopts=rng.choice([0, 1, 2, 5]), p_sub=0.7)
        args = g.make()
        env = gen.environment(rng, s, None, p_set=0.15, p_bad=0.01, decoys=False)
        ops, r = script(s, args, env, what='', free=False)
        if r.kind == 'ok':
            q = observe(s, r, 0, 'GSK')
            for _ in range(rng.choice([1, 2, 3])):
                rng.shuffle(q)
                ops += q
        ops.append(['F', 0])
        yield {'runs': [ops]}


def judge(case, ress, ctx):
    s = Sim(case, ress, ctx, ('status', 'value', 'set', 'count', 'iter')).go()
    r = s.results[0] if s.results else None
    return s.bad, sig_of(r), True
