"""C04: no token silently ignored or misattributed."""
from .. import gen
from ..common import make_schemas, script
from ..sim import Sim, sig_of

RULE = ('command lines over random tables with unknown, truncated, extended or re-cased names, names of other levels, surplus '
        'positionals and options lacking their value, mixed into valid arguments; status, message and every stored value are '
        'compared with the reference reading; non-trivial: at least one token')
BUDGET = {'quick': 180000, 'thorough': 2700000}
TOKEN = ('unknown long', 'unknown short', 'unknown positional', 'missing value')


def schemas(rng, tier):
    return make_schemas(rng, 384 if tier == 'quick' else 768, levels=2, nopts=(1, 8), p_vals=0.05, p_req=0, p_default=0.2,
                        npos=(0, 2), p_flags=0.2, p_group=0.2, p_hidden=0.15)


def cases(rng, schemas, n, ctx):
    for _ in range(n):
        s = rng.choice(schemas)
        g = gen.Args(rng, s, p_bad=0.01, p_junk=0.35, maxopts=5)
        args = g.make()
        r = rng.random()
        if r < 0.12:
            args = args + [rng.choice(['surplus', 'x', '-', '--', '12'])]
        elif r < 0.3:
            # an option without its value, or one of another level
            lv = rng.randrange(len(s['levels']))
            es = [e for e in s['levels'][lv] if e['k'] == 'opt' and e['t'] != 'flag']
            if es:
                e = rng.choice(es)
                t = rng.choice([x for x in (['-' + e['s']] if e['s'] else []) + (['--' + e['l']] if e['l'] else [])])
                args = args + [t] if rng.random() < 0.6 else [t] + args
        elif r < 0.36 and args:
            args = args[:rng.randrange(len(args))]
        elif r < 0.42 and args:
            # a damaged token
            i = rng.randrange(len(args))
            t = args[i]
            t = rng.choice([t + 'x', t[:-1], '-' + t, t[1:], gen.upper(t), t + '='])
            args = args[:i] + [t] + args[i + 1:]
        ops, _ = script(s, args, what='GK')
        yield {'runs': [ops]}


def judge(case, ress, ctx):
    s = Sim(case, ress, ctx, ('status', 'value', 'count', 'code', 'msg')).go()
    r = s.results[0] if s.results else None
    bad = s.bad
    if r is not None and r.kind == 'err' and r.why not in TOKEN:
        bad = [b for b in bad if b[0] not in ('code', 'msg')]
    elif r is not None and r.kind == 'err':
        ctx.see('refused: ' + r.why)
    return bad, sig_of(r), any(len(o) > 3 for o in case['runs'][0] if o[0] == 'A')
