"""C20: allocation failure is reported, never fatal or silent."""
import random

from .. import gen
from ..common import make_schemas
from ..model import Parse
from ..sim import Sim, observe, sig_of

LEVEL = 'fault_enumeration'
RULE = ('for each of many random scripts (parse, queries, help and usage, or a help request ending the process) a first run counts the '
        'allocations of the library; then one run per allocation and mode repeats the script with that allocation failing, alone or with '
        'all later ones; non-trivial: a fault was actually delivered')
BUDGET = {'quick': 3000, 'thorough': 60000}
BATCH = 100
CAP = 70
ASSUME = ['allocations made inside PCRE2 and the C library are not failed']


def schemas(rng, tier):
    n = 192 if tier == 'quick' else 384
    a = make_schemas(rng, n, 's', levels=2, nopts=(1, 7), p_vals=0.3, p_req=0.05, p_default=0.3, p_env=0.3, p_group=0.3, p_custom=0.25,
                     p_hidden=0.1, npos=(0, 3), p_deps=0.1)
    b = make_schemas(rng, n // 2, 't', levels=0, nopts=(2, 5), p_vals=0.2, p_env=0.4, p_env_override=0.6,
                     types=['astr', 'aint', 'afloat', 'mstr', 'mint', 'mfloat', 'mbool'], p_flags=0.7, npos=(0, 2),
                     ptypes=['vstr', 'vint', 'vfloat', 'str'])
    return a + b


def build(d, k1=-1, m1=0, k2=-1, m2=0):
    ops = [['I', 0, d['s'], 'prog', '1.0'], ['C', 0, 'desc', 'text']]
    if d['pre'] is not None:
        ops.append(['C', 0, 'prefix', d['pre']])
    for k, v in d['env'].items():
        ops.append(['E', k, v])
    ops += [['m', 0], ['O', str(k1), str(m1)], ['A', 0, 'prog'] + d['args'], ['o']]
    ops += d['obs']
    ops += [['O', str(k2), str(m2)]] + d['late'] + [['o']]
    ops += d['obs'] + [['F', 0], ['q', 0]]
    return ops


def cases(rng, schemas, n, ctx):
    for _ in range(n):
        s = rng.choice(schemas)
        pre = rng.choice(gen.PREFIXES)
        env = gen.environment(rng, s, pre, p_set=rng.choice([0, 0, 0.5]), p_bad=0.05, decoys=False)
        g = gen.Args(rng, s, p_bad=rng.choice([0, 0, 0.05]), p_junk=rng.choice([0, 0.03]), p_exit=0.05, maxopts=rng.choice([2, 4, 8]))
        args = g.make()
        r = Parse(s, pre).run(args, env)
        obs = observe(s, r, 0, 'GSK') if r.kind == 'ok' else []
        late = []
        if r.kind == 'ok':
            late = rng.sample([['H', 0], ['W', 0]] + obs, min(len(obs) + 2, 4))
            if ['H', 0] not in late:
                late.append(['H', 0])
        d = {'s': s['id'], 'pre': pre, 'env': env, 'args': args, 'obs': obs, 'late': late}
        yield {'runs': [build(d)], 'meta': {'d': d}}


def counts(case, res):
    """allocations seen in the parse and in the later calls"""
    out = []
    for i, op in enumerate(case['runs'][0]):
        rec = res.ops.get(i)
        if op[0] == 'o' and rec is not None and rec.fields:
            out.append((int(rec.fields[0]), int(rec.fields[1])))
    return out


def followups(case, ress, ctx):
    d = case['meta']['d']
    if 'fault' in case['meta']:
        return []
    c = counts(case, ress[0])
    out = []
    rng = random.Random(str(d))
    for phase, (n, _) in enumerate(c[:2]):
        ks = range(n) if n <= CAP else sorted(set(range(20)) | set(rng.sample(range(n), CAP - 25)) | set(range(n - 5, n)))
        for k in ks:
            for mode in (0, 1):
                ops = build(d, k, mode) if phase == 0 else build(d, -1, 0, k, mode)
                out.append({'runs': [ops], 'meta': {'d': d, 'fault': [phase, k, mode]}})
    if not c:
        # the process ended inside the parse: nothing counted, try the first ones
        for k in range(25):
            for mode in (0, 1):
                out.append({'runs': [build(d, k, mode)], 'meta': {'d': d, 'fault': [0, k, mode]}})
    ctx.see('scripts whose allocations were enumerated')
    if c and max(n for n, _ in c) > CAP:
        ctx.see('scripts with a sample of their allocations')
    return out


def judge(case, ress, ctx):
    ops = case['runs'][0]
    res = ress[0]
    crash = res.crash(len(ops))
    if crash:
        return [('crash', crash)], 'crash', True
    schema = ctx.schemas[ops[0][2]]
    d = case['meta']['d']
    fault = case['meta'].get('fault')
    r = Parse(schema, d['pre']).run(d['args'], d['env'])
    bad = []
    ai = next(i for i, op in enumerate(ops) if op[0] == 'A')
    rec = res.ops[ai]
    if rec.exited is not None:
        if rec.exited[0]:
            bad.append(('live', '%d blocks held at exit' % rec.exited[0]))
        if r.kind in ('ok', 'err'):
            bad.append(('status', 'process ended, expected %s' % r.kind))
        return bad, 'exit/%s' % (fault is not None), fault is not None
    rc = int(rec.fields[0])
    c = counts(case, res)
    hits = sum(h for _, h in c)
    if hits:
        ctx.see('faults delivered', 1)
    if r.kind == 'err' and rc == 0:
        bad.append(('silent', 'accepted with an allocation failing, refused without (%s)' % r.why))
    if r.kind == 'ok' and rc == 0:
        s = Sim(case, ress, ctx, ('value', 'count', 'set')).go()
        # calls made while the fault is on are not compared
        lo = next(i for i, op in enumerate(ops) if i > ai and op[0] == 'O')
        hi = max(i for i, op in enumerate(ops) if op[0] == 'o')
        for key, text in s.bad:
            n = int(text.split(' ')[1])
            if lo < n < hi and fault is not None:
                continue
            bad.append((key, text))
        if not hits and fault is None:
            pass
    if r.kind == 'ok' and rc and not hits:
        bad.append(('status', 'refused with %d without a fault' % rc))
    q = res.ops[len(ops) - 1]
    if int(q.fields[0]):
        bad.append(('live', '%s blocks held after freeing' % q.fields[0]))
    out = 'same' if rc == 0 else 'refused'
    return bad, '%s/%s/%s' % (sig_of(r).split('/opts')[0], out, fault and '%d.%d.%d' % (fault[0], min(fault[1], 30), fault[2])), hits > 0
