"""C21: contexts can be freed and reused, and are independent of one another."""
import re

from .. import gen
from ..common import make_schemas
from ..model import Parse
from ..sim import Sim, observe, sig_of

RULE = ('one parse with all its reads, help and usage is recorded in a fresh process and again after a random history of successful, freed, '
        'failing and re-initialised parses on the same table: both records must be equal and agree with the reference model, and after a '
        'free the root options must read as declared; or two contexts over different tables are used interleaved and each must behave as '
        'alone; non-trivial: the history held at least one parse that stored something')
BUDGET = {'quick': 31000, 'thorough': 500000}
BATCH = 240
CHUNK = 3   # the first script of each case runs in a fresh process


def schemas(rng, tier):
    n = 336 if tier == 'quick' else 672
    kw = dict(nopts=(2, 7), p_vals=0.25, p_req=0.1, p_default=0.35, p_env=0.3, p_env_override=0.4, p_group=0.3, p_custom=0.2, p_rec=0.1,
              p_deps=0.2, p_hidden=0.1)
    return (make_schemas(rng, n, 's', levels=2, npos=(0, 3), **kw) +
            make_schemas(rng, n // 4, 't', levels=3, npos=(0, 1), nopts=(1, 3)) +
            make_schemas(rng, n // 2, 'u', levels=0, nopts=(2, 6), p_flags=0.7, p_default=0.3, p_env=0.5, p_env_override=0.6,
                         types=['astr', 'aint', 'afloat', 'mstr', 'mint', 'mfloat', 'mbool', 'str', 'int', 'flag'], npos=(0, 2),
                         ptypes=['vstr', 'vint', 'vfloat', 'str', 'float']))


def knobs(rng, s):
    return gen.Args(rng, s, p_bad=rng.choice([0, 0.05, 0.15]), p_junk=rng.choice([0, 0.05, 0.2]), maxopts=rng.choice([2, 5, 9]))


def setenv(rng, s, pre, old):
    env = gen.environment(rng, s, pre, p_set=rng.choice([0, 0, 0.4]), p_bad=0.06, decoys=False)
    return [['U', k] for k in old if k not in env] + [['E', k, v] for k, v in env.items()], env


def late(rng, s, r, c):
    """reads and displays after a parse"""
    ops = observe(s, r, c, 'GSK') if r.kind == 'ok' else []
    if r.kind == 'ok' and rng.random() < 0.5:
        rng.shuffle(ops)
    if r.kind == 'ok':
        ops.append(['B', c])
        if rng.random() < 0.3 and r.chain and r.chain[-1].get('action'):
            ops.append(['R', c])
    ops += rng.sample([['H', c], ['W', c], ['V', c]], rng.randint(1, 2))
    return ops


def init(rng, s, c, pre):
    ops = [['I', c, s['id'], 'prog', '1.0'], ['C', c, 'desc', 'some text']]
    if pre is not None:
        ops.append(['C', c, 'prefix', pre])
    return ops


def history(rng, s, pre):
    mine = pre
    if rng.random() < 0.4:
        pre = rng.choice(gen.PREFIXES)
    ops = init(rng, s, 0, pre)
    env = {}
    stored = 0
    for _ in range(rng.choice([1, 1, 2, 3, 6])):
        e, env = setenv(rng, s, pre, env)
        ops += e
        args = knobs(rng, s).make()
        r = Parse(s, pre).run(args, env)
        if r.kind in ('exit', 'skip'):
            continue
        ops.append(['A', 0, 'prog'] + args)
        stored += any(st.provided for lv in r.levels for st in r.state[lv])
        if r.kind == 'ok':
            if rng.random() < 0.3:
                ops += late(rng, s, r, 0)
            ops.append(['F', 0])
            if rng.random() < 0.5:
                ops += [op for op in observe(s, r, 0, 'GSK') if op[2].startswith('.')]
            if rng.random() < 0.1:
                ops.append(['F', 0])
        elif rng.random() < 0.5:
            ops.append(['F', 0])
        if rng.random() < 0.15:
            if rng.random() < 0.5:
                pre = rng.choice(gen.PREFIXES)
            ops += init(rng, s, 0, pre)
    if pre != mine:
        ops += init(rng, s, 0, mine)
    return ops, env, stored


def single(rng, schemas):
    s = rng.choice(schemas)
    pre = rng.choice(gen.PREFIXES)
    while True:
        e, env = setenv(rng, s, pre, {})
        args = knobs(rng, s).make()
        r = Parse(s, pre).run(args, env)
        if r.kind in ('ok', 'err'):
            break
    last = [['A', 0, 'prog'] + args] + late(rng, s, r, 0) + [['F', 0], ['H', 0]]
    runs = [init(rng, s, 0, pre) + e + last]
    stored = 0
    for _ in range(2):
        h, old, n = history(rng, s, pre)
        stored += n
        runs.append(h + [['U', k] for k in old if k not in env] + e + last)
    return {'runs': runs, 'meta': {'w': 'history', 'n': len(last), 'stored': stored}}


def pair(rng, schemas):
    a, b = rng.sample(schemas, 2)
    seqs = []
    env = {}
    pres = [rng.choice(gen.PREFIXES) for _ in range(2)]
    for s, pre in ((a, pres[0]), (b, pres[1])):
        for k, v in gen.environment(rng, s, pre, p_set=rng.choice([0, 0.2]), p_bad=0, decoys=False).items():
            env.setdefault(k, v)
    stored = 0
    for c, s in enumerate((a, b)):
        ops = init(rng, s, c, pres[c])
        for _ in range(rng.choice([1, 2, 3])):
            args = knobs(rng, s).make()
            r = Parse(s, pres[c]).run(args, env)
            if r.kind in ('exit', 'skip'):
                continue
            stored += 1
            ops.append(['A', c, 'prog'] + args)
            ops += late(rng, s, r, c)
            if r.kind == 'ok' or rng.random() < 0.5:
                ops.append(['F', c])
        seqs.append(ops)
    mix, idx = [], [0, 0]
    src = []
    while idx[0] < len(seqs[0]) or idx[1] < len(seqs[1]):
        k = rng.randrange(2)
        if idx[k] >= len(seqs[k]):
            k = 1 - k
        for _ in range(rng.choice([1, 1, 2, 5])):
            if idx[k] < len(seqs[k]):
                mix.append(seqs[k][idx[k]])
                src.append(k)
                idx[k] += 1
    e = [['E', k, v] for k, v in env.items()]
    return {'runs': [e + seqs[0], e + seqs[1], e + mix], 'meta': {'w': 'pair', 'e': len(e), 'src': src, 'stored': stored}}


def cases(rng, schemas, n, ctx):
    for _ in range(n):
        yield single(rng, schemas) if rng.random() < 0.75 else pair(rng, schemas)


HEX = re.compile(r'[0-9a-f]{16}\Z')


def view(op, rec):
    """what an operation showed, without addresses"""
    if rec is None:
        return None
    f = rec.fields or []
    if op[0] in 'GXMTY' and op[-1] == 's':
        f = [x for x in f if not HEX.match(x)]
    return f, rec.out, rec.err, rec.events


def judge(case, ress, ctx):
    m = case['meta']
    for r, ops in zip(ress, case['runs']):
        crash = r.crash(len(ops))
        if crash:
            return [('crash', crash)], 'crash', True
    bad = []
    if m['w'] == 'history':
        n = m['n']
        for k in (1, 2):
            ops = case['runs'][k]
            ctx.see('operations compared with a fresh process', n)
            for j in range(n):
                a, b = len(case['runs'][0]) - n + j, len(ops) - n + j
                va, vb = view(ops[b], ress[0].ops.get(a)), view(ops[b], ress[k].ops.get(b))
                if va != vb:
                    bad.append(('history', 'call %d %r: %r after the history, %r in a fresh process' % (b, ops[b][:8], vb, va)))
                    break
            s = Sim(case, ress, ctx, ('status', 'value', 'set', 'count', 'events', 'release'), run=k).go()
            bad += s.bad
        s = Sim(case, ress, ctx, ()).go()
        return bad, 'history/%s/%d' % (sig_of(s.results[-1]).split('/opts')[0] if s.results else 'none', min(m['stored'], 8)), m['stored'] > 0
    e = m['e']
    at = [e, e]
    for j, k in enumerate(m['src']):
        op = case['runs'][2][e + j]
        va, vb = view(op, ress[k].ops.get(at[k])), view(op, ress[2].ops.get(e + j))
        at[k] += 1
        if op[0] in 'R' and va and vb:
            pass
        if va != vb:
            bad.append(('interleaved', 'call %d %r: %r interleaved, %r alone' % (e + j, op[:8], vb, va)))
            break
    ctx.see('operations compared with a context used alone', len(m['src']))
    return bad, 'pair/%d' % min(m['stored'], 6), m['stored'] > 1
