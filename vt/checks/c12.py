"""C12: requirements, conflicts and exclusive groups."""
from .. import gen
from ..common import make_schemas, script
from ..sim import Sim, sig_of

RULE = ('tables with required options and positionals, require and conflict lists (cycles included), exclusive and plain groups on '
        'every level; random subsets of options supplied in random order from command line and environment; verdict, status and '
        'the options named compared with the relations; non-trivial: a relation is declared on a selected level')
BUDGET = {'quick': 280000, 'thorough': 4200000}
REL = ('required', 'exclusive', 'require', 'conflict')


def schemas(rng, tier):
    return make_schemas(rng, 576 if tier == 'quick' else 960, levels=2, maxsub=2, nopts=(2, 7), p_vals=0.0, p_req=0.12, p_default=0.25,
                        p_env=0.25, npos=(0, 2), p_deps=0.35, p_group=0.45, p_excl=0.7, p_short_only=0.25, p_long_only=0.25,
                        types=['flag', 'flag', 'str', 'int', 'astr', 'mint', 'bool', 'float'])


def cases(rng, schemas, n, ctx):
    for _ in range(n):
        s = rng.choice(schemas)
        g = gen.Args(rng, s, p_bad=0.0, p_junk=0.0, maxopts=rng.choice([0, 1, 2, 3, 6]), p_sub=0.75)
        args = g.make()
        env = gen.environment(rng, s, None, p_set=rng.choice([0, 0, 0.3]), p_bad=0.0, decoys=False)
        ops, r = script(s, args, env, what='')
        yield {'runs': [ops]}


def judge(case, ress, ctx):
    s = Sim(case, ress, ctx, ('status', 'code', 'msg')).go()
    r = s.results[0] if s.results else None
    bad = s.bad
    rel = False
    if r is not None:
        if r.kind == 'err' and r.why not in REL:
            bad = [b for b in bad if b[0] not in ('code', 'msg')]
        for lv in r.levels:
            for st in r.state[lv]:
                e = st.e
                if e.get('req') or e.get('conf') or 'FLAG_REQUIRED' in e.get('flags', []) or e['k'] == 'group' and e.get('exclusive') or (
                        e['k'] == 'pos' and not e.get('optional')):
                    rel = True
        for f in r.errors:
            ctx.see('violated ' + f.why)
    return bad, sig_of(r).split('/opts')[0] + '/' + '+'.join(sorted({f.why for f in r.errors} if r else [])), rel
