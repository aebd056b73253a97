"""C09: environment variables and their precedence."""
from .. import gen
from ..common import make_schemas, script
from ..sim import Sim, sig_of

RULE = ('tables whose options are bound to variables (declared, automatic, prefixed, opted out, override) on root and subcommand '
        'levels, with random prefixes, environments (bound names plus wrongly decorated decoys) and command lines; every value '
        'compared with the documented precedence; non-trivial: at least one bound variable or decoy set')
BUDGET = {'quick': 120000, 'thorough': 1500000}


def schemas(rng, tier):
    return make_schemas(rng, 660 if tier == 'quick' else 960, levels=2, maxsub=2, nopts=(2, 7), p_vals=0.25, p_req=0.05,
                        p_default=0.4, p_env=0.8, p_env_override=0.4, npos=(0, 2), p_flags=0.3, p_custom=0.05)


def cases(rng, schemas, n, ctx):
    for _ in range(n):
        s = rng.choice(schemas)
        prefix = rng.choice(gen.PREFIXES + ['AP', 'APPX', 'LEVEL', 'MY_', 'X_Y'])
        g = gen.Args(rng, s, p_bad=0.01, p_junk=0.0, maxopts=3, p_sub=0.7)
        args = g.make()
        env = gen.environment(rng, s, prefix, p_set=rng.choice([0.15, 0.5, 0.8]), p_bad=0.02)
        ops, _ = script(s, args, env, prefix, what='GSK')
        yield {'runs': [ops]}


def judge(case, ress, ctx):
    s = Sim(case, ress, ctx, ('status', 'value', 'set', 'count', 'code', 'release')).go()
    r = s.results[0] if s.results else None
    bad = s.bad
    if r is not None and r.kind == 'err' and r.phase != 'env':
        bad = [b for b in bad if b[0] != 'code']
    return bad, sig_of(r) + ('/env' if s.env else ''), bool(s.env)
