"""C05: positionals bind in declaration order."""
from .. import gen
from ..common import make_schemas, script
from ..sim import Sim, sig_of

RULE = ('tables with up to five positionals (optional, variadic, numeric; root and subcommand levels) and command lines mixing '
        'plain arguments, options, "--" and negative numbers; values, counts and refusals compared with the reference binding; '
        'non-trivial: at least one positional declared on the selected level')
BUDGET = {'quick': 240000, 'thorough': 3600000}


def schemas(rng, tier):
    return make_schemas(rng, 432 if tier == 'quick' else 768, levels=1, maxsub=2, nopts=(0, 4), npos=(1, 5), p_vals=0.05, p_req=0,
                        p_default=0.3, p_flags=0.4, types=['flag', 'str', 'int', 'astr', 'bool'],
                        ptypes=['str', 'int', 'float', 'bool', 'vstr', 'vint', 'vfloat', 'vstr', 'vint', 'vfloat'])


NEG = ['-5', '-0', '-12', '-.5', '-1.5', '-9223372036854775808', '-1e3', '-7', '-3.25', '-9223372036854775809']


def cases(rng, schemas, n, ctx):
    for _ in range(n):
        s = rng.choice(schemas)
        g = gen.Args(rng, s, p_bad=0.04, p_junk=0.02, maxopts=2, p_sub=0.5)
        args = g.make()
        r = rng.random()
        if r < 0.35:
            for _ in range(rng.randint(1, 3)):
                args.insert(rng.randint(0, len(args)), rng.choice(NEG))
        elif r < 0.5:
            args.insert(rng.randint(0, len(args)), '--')
        elif r < 0.6:
            args += [rng.choice(['more', '1', '-', '--', '-x', '--out', '2.5'])] * rng.randint(1, 3)
        elif r < 0.63:
            # many elements
            es = [e for e in s['levels'][0] if e['k'] == 'pos' and e['t'] in gen.VARIADIC]
            if es:
                args += [gen.value(rng, es[0]) for _ in range(rng.choice([7, 8, 9, 16, 17, 40, 300]))]
        ops, _ = script(s, args, what='GKS')
        yield {'runs': [ops]}


def judge(case, ress, ctx):
    s = Sim(case, ress, ctx, ('status', 'value', 'count', 'set', 'code', 'msg', 'iter')).go()
    r = s.results[0] if s.results else None
    bad = s.bad
    if r is not None and r.kind == 'err' and r.why != 'required':
        bad = [b for b in bad if b[0] not in ('code', 'msg')]
    return bad, sig_of(r), r is not None and any(st.e['k'] == 'pos' for st in r.state[r.levels[-1]])
