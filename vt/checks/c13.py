"""C13: subcommands are resolved deterministically at every level."""
from .. import gen
from ..common import make_schemas, script
from ..schema import opt_name
from ..sim import Sim, sig_of

RULE = ('command trees up to ten levels deep whose names are prefixes of each other, addressed by full names, prefixes, ambiguous '
        'prefixes, extensions and unknown words; the selected chain is read off option values, paths and the executed action; '
        'non-trivial: at least one command word')
BUDGET = {'quick': 180000, 'thorough': 2700000}


def deep(rng, sid, depth):
    levels = []
    for i in range(depth + 1):
        ents = [{'k': 'help'}, {'k': 'opt', 't': 'int', 's': 'n', 'l': 'num', 'help': 'x', 'default': i}]
        if i < depth:
            ents.append({'k': 'sub', 'name': rng.choice(['go', 'down', 'deeper']), 'help': 'x', 'level': i + 1,
                         'action': {'id': 'd%d' % i, 'rc': i}})
            if rng.random() < 0.3:
                ents.append({'k': 'sub', 'name': 'golang', 'help': 'x', 'level': i + 1, 'action': {'id': 'g%d' % i, 'rc': 50 + i}})
        levels.append(ents)
    return {'id': sid, 'levels': levels, 'debug': False}


def schemas(rng, tier):
    out = make_schemas(rng, 432 if tier == 'quick' else 768, levels=3, maxsub=5, nopts=(1, 3), p_vals=0.0, p_req=0.0, p_default=0.3,
                       npos=(0, 2), p_action=0.9, p_hidden=0.15, types=['flag', 'str', 'int', 'astr'], p_version=0.1)
    out += [deep(rng, 'd%d' % i, d) for i, d in enumerate((6, 7, 8, 8, 9, 10, 12))]
    return out


def word(rng, names):
    n = rng.choice(names)
    r = rng.random()
    if r < 0.55:
        return n
    if r < 0.85:
        return n[:rng.randint(1, len(n))]
    if r < 0.92:
        return n + rng.choice('xs-')
    return rng.choice(['zzz', gen.upper(n), n[1:] or 'q'])


def walk(rng, s, lv):
    ents = s['levels'][lv]
    subs = [e['name'] for e in ents if e['k'] == 'sub']
    opts = [e for e in ents if e['k'] == 'opt']
    out = []
    for _ in range(rng.choice([0, 0, 1, 2])):
        if opts:
            e = rng.choice(opts)
            out += gen.spell(rng, e, gen.value(rng, e) if e['t'] != 'flag' else None)
    if subs and rng.random() < 0.93:
        w = word(rng, subs)
        out.append(w)
        c = [e for e in ents if e['k'] == 'sub' and e['name'] == w] or [e for e in ents if e['k'] == 'sub' and e['name'].startswith(w)]
        if len(c) >= 1:
            return out + walk(rng, s, c[0]['level'])
    for e in ents:
        if e['k'] == 'pos' and rng.random() < 0.5:
            out.append(rng.choice(['pp', '1', '2', 'zz']))
    if rng.random() < 0.05:
        # an option of another level
        e = rng.choice([e for l in s['levels'] for e in l if e['k'] == 'opt'])
        out += gen.spell(rng, e, gen.value(rng, e) if e['t'] != 'flag' else None)
    return out


def cases(rng, schemas, n, ctx):
    for _ in range(n):
        s = rng.choice(schemas) if rng.random() < 0.9 else rng.choice([s for s in schemas if s['id'][0] == 'd'])
        args = walk(rng, s, 0)
        ops, r = script(s, args, what='GK', free=False)
        if r.kind == 'ok':
            ops += [['B', 0], ['R', 0]]
        ops.append(['F', 0])
        yield {'runs': [ops]}


def judge(case, ress, ctx):
    s = Sim(case, ress, ctx, ('status', 'value', 'count', 'code', 'msg', 'exec')).go()
    r = s.results[0] if s.results else None
    bad = s.bad
    if r is not None:
        if r.kind == 'err' and r.why not in ('ambiguous', 'depth', 'unknown positional'):
            bad = [b for b in bad if b[0] not in ('code', 'msg')]
        if r.kind == 'err' and r.why == 'depth':
            bad = [b for b in bad if b[0] != 'msg']
        ctx.see('depth %d' % len(r.chain))
        if r.kind == 'ok' and not bad and r.chain:
            i = len(case['runs'][0]) - 2
            rec = ress[0].ops[i]
            want = [r.chain[-1]['action']['id']] if r.chain[-1].get('action') else []
            got = [e[1] for e in rec.events if e[0] == 'A']
            if got != want:
                bad = [('chain', 'executed %s, selected %s' % (got, want))]
    sig = sig_of(r).split('/opts')[0]
    return bad, sig, r is not None and (bool(r.chain) or r.why == 'ambiguous')
