"""C02: everything allocated is released on every path."""
from .. import gen
from ..common import make_schemas
from ..model import Parse
from ..sim import Sim, observe, sig_of

RULE = ('random tables of every type with owning callbacks, environment and defaults; parses that succeed, fail at any token, fail in '
        'the environment or in the final validation, or end the process; several parses and queries on one context; the monitor counts '
        'every heap block the library obtains and gives back and every custom release; non-trivial: the library obtained memory')
BUDGET = {'quick': 120000, 'thorough': 1500000}


def schemas(rng, tier):
    n = 288 if tier == 'quick' else 576
    a = make_schemas(rng, n, 's', levels=2, nopts=(2, 8), p_vals=0.25, p_req=0.1, p_default=0.3, p_env=0.35, p_deps=0.2, p_group=0.3,
                     p_custom=0.35, npos=(0, 3))
    b = make_schemas(rng, n // 2, 't', levels=1, nopts=(2, 6), p_vals=0.3, p_env=0.4, p_env_override=0.6, p_default=0.2,
                     types=['astr', 'aint', 'afloat', 'mstr', 'mint', 'mfloat', 'mbool', 'str'], p_flags=0.7, npos=(0, 2), p_custom=0.5)
    return a + b


def cases(rng, schemas, n, ctx):
    for _ in range(n):
        s = rng.choice(schemas)
        pre = rng.choice(gen.PREFIXES)
        env = gen.environment(rng, s, pre, p_set=rng.choice([0, 0, 0.4, 0.8]), p_bad=0.15, decoys=False)
        ops = [['I', 0, s['id'], 'prog', '1.0']]
        if pre is not None:
            ops.append(['C', 0, 'prefix', pre])
        for k, v in env.items():
            ops.append(['E', k, v])
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            g = gen.Args(rng, s, p_bad=rng.choice([0.0, 0.08, 0.3]), p_junk=0.08, p_exit=0.05, maxopts=rng.choice([3, 6, 12]))
            args = g.make()
            ops.append(['m', 0])
            ops.append(['A', 0, 'prog'] + args)
            r = Parse(s, pre).run(args, env)
            if r.kind == 'exit':
                break
            if r.kind == 'ok':
                ops.append(['q', 0])
                if rng.random() < 0.3:
                    ops += observe(s, r, 0, 'GSK')
                if rng.random() < 0.3:
                    ops += rng.sample([['H', 0], ['W', 0], ['V', 0]], rng.randint(1, 3))
                ops.append(['F', 0])
                ops.append(['q', 0])
                if rng.random() < 0.3:
                    ops += [['F', 0], ['q', 0]]
            else:
                ops.append(['q', 0])
                if rng.random() < 0.4:
                    ops += [['F', 0], ['q', 0]]
        yield {'runs': [ops]}


def judge(case, ress, ctx):
    s = Sim(case, ress, ctx, ('live', 'release')).go()
    blocks = 0
    for i, op in enumerate(case['runs'][0]):
        rec = ress[0].ops.get(i)
        if rec is not None and op[0] == 'q' and rec.fields:
            blocks = max(blocks, int(rec.fields[1]))
        elif rec is not None and rec.exited:
            blocks = max(blocks, rec.exited[1])
    sig = '+'.join(sig_of(r) for r in s.results)
    return s.bad, sig, blocks > 0
