"""C23: callbacks run in the documented order, once per occurrence."""
from .. import gen
from ..common import make_schemas, script
from ..sim import Sim, sig_of

RULE = ('tables whose options carry several recording validators, recording handlers (owning, aliasing and numeric) and recording '
        'release callbacks, given repeatedly, attached, in clusters, after --, and from the environment, with callbacks set to fail on '
        'given texts; the ordered event log is compared with the reference order; non-trivial: at least one callback ran')
BUDGET = {'quick': 180000, 'thorough': 2700000}


def schemas(rng, tier):
    n = 384 if tier == 'quick' else 768
    return make_schemas(rng, n, 's', levels=2, nopts=(2, 6), p_vals=0.08, p_req=0.05, p_default=0.15, p_env=0.4, p_env_override=0.5,
                        p_custom=0.6, p_rec=0.7, types=['str', 'str', 'int', 'flag', 'bool', 'float', 'astr', 'mstr'], npos=(0, 2),
                        p_group=0.15)


def cases(rng, schemas, n, ctx):
    for _ in range(n):
        s = rng.choice(schemas)
        pre = rng.choice(gen.PREFIXES)
        env = gen.environment(rng, s, pre, p_set=rng.choice([0, 0.3, 0.7]), p_bad=0.03, decoys=False)
        g = gen.Args(rng, s, p_bad=0.02, p_junk=0.03, p_exit=0.03, maxopts=rng.choice([2, 5, 9]))
        args = g.make()
        ops, r = script(s, args, env, pre, what='G')
        yield {'runs': [ops]}


def judge(case, ress, ctx):
    s = Sim(case, ress, ctx, ('status', 'code', 'events', 'release', 'value')).go()
    r = s.results[0] if s.results else None
    bad = s.bad
    if r is not None and r.kind == 'err' and r.why != 'callback':
        bad = [b for b in bad if b[0] != 'code']
    n = 0
    kinds = set()
    for i in ress[0].ops:
        for e in ress[0].ops[i].events:
            n += 1
            kinds.add(e[0])
    return bad, sig_of(r).split('/opts')[0] + '/' + ''.join(sorted(kinds)) + str(min(n, 12)), n > 0
