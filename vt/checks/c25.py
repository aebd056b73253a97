"""C25: the library touches nothing but its own context and its output."""
from .. import gen
from ..common import make_schemas
from ..schema import opt_name
from . import c01, c24

RULE = ('random tables, with and without definition checks, and scripts of every public call in any order on hostile and ordinary command '
        'lines; around every call the argument vectors, the environment, open descriptors, directory, masks, signals, locale, rounding, '
        'standard input, text the program has buffered on standard output, the context fields and the declared tables are compared; '
        'non-trivial: at least one parse was given arguments')
BUDGET = {'quick': 60000, 'thorough': 900000}
BATCH = 200
LIB = 'IAGSKXMTYBRFHWVZ'


def schemas(rng, tier):
    n = 150 if tier == 'quick' else 260
    kw = dict(nopts=(1, 7), p_vals=0.4, p_req=0.05, p_default=0.3, p_env=0.3, p_env_override=0.4, p_group=0.3, p_deps=0.2, p_hidden=0.1,
              p_custom=0.15, p_rec=0.1, p_exit_opt=0.04, p_hint=0.2, p_version=0.7)
    out = make_schemas(rng, n, 's', levels=3, npos=(0, 3), **kw)
    out += make_schemas(rng, n // 2, 'u', levels=0, npos=(0, 2), p_flags=0.6, p_env=0.4, p_env_override=0.5, nopts=(3, 8),
                        types=['astr', 'aint', 'afloat', 'mstr', 'mint', 'mfloat', 'mbool'], ptypes=['vstr', 'vint', 'vfloat'])
    out = [c01.dress(rng, s) if rng.random() < 0.4 else s for s in out]
    out += [c24.sound(rng, 'g%d' % i) for i in range(n // 2)]
    k = 0
    for kind in list(c24.KINDS):
        for _ in range(3 if tier == 'quick' else 6):
            out.append(c24.defect(rng, 'd%d' % k, kind))
            k += 1
    return out


def cases(rng, schemas, n, ctx):
    types = {s['id']: c01.string_paths(s) for s in schemas if 'defect' not in s}
    good = [s for s in schemas if 'defect' not in s]
    for _ in range(n):
        if rng.random() < 0.06:
            s = rng.choice(schemas)
            yield {'runs': [[['w'], ['I', 0, s['id'], 'prog', '1.0'], ['Z', rng.randint(0, 31)]]]}
            continue
        two = rng.sample(good, 2)
        ops = [['w']]
        pres = []
        for c, s in enumerate(two):
            pre = rng.choice(gen.PREFIXES)
            pres.append(pre)
            ops.append(['I', c, s['id'], rng.choice(['prog', 'other']), rng.choice(['1.0', None])])
            ops.append(['C', c, 'desc', rng.choice(c01.ODD + [None, 'a program'])])
            if pre is not None:
                ops.append(['C', c, 'prefix', pre])
            if rng.random() < 0.3:
                ops.append(['L', c, rng.choice([80, 40, 0]), rng.choice([30, 10, 60, 0]), rng.choice([2, 0, 12, 40]), rng.choice([20, 5, 0]), rng.choice('01')])
            for k, v in gen.environment(rng, s, pre, p_set=rng.choice([0, 0, 0.4]), p_bad=0.1).items():
                ops.append(['E', k, v])
        for _ in range(rng.choice([1, 2, 3, 5])):
            c = rng.randrange(2)
            s = two[c]
            g = gen.Args(rng, s, p_bad=rng.choice([0, 0.05, 0.3]), p_junk=rng.choice([0, 0.1]), p_exit=0.04, maxopts=rng.choice([3, 8]))
            args = g.make()
            if rng.random() < 0.4:
                args = c01.hostile(rng, s, args)
            ops.append(['A', c, 'prog'] + args)
            for _ in range(rng.randint(0, 6)):
                k = c if rng.random() < 0.8 else 1 - c
                ops.append(c01.call(rng, two[k], k, types[two[k]['id']]))
            if rng.random() < 0.7:
                ops.append(['F', c])
        yield {'runs': [ops]}


def judge(case, ress, ctx):
    ops = case['runs'][0]
    res = ress[0]
    crash = res.crash(len(ops))
    if crash:
        return [('crash', crash)], 'crash', True
    bad = []
    n = 0
    kinds = []
    for i, op in enumerate(ops):
        rec = res.ops.get(i)
        if rec is None or rec.fields is None:
            break
        for what, text in rec.touched:
            bad.append(('touched/' + what, 'call %d %r changed %s (%r)' % (i, op[:8], what, text)))
        if op[0] in LIB:
            n += 1
            if op[0] != 'Z' and not rec.out.startswith('\x02'):
                bad.append(('order', 'call %d %r: text the program had printed before is not ahead of %r' % (i, op[:8], rec.out[:80])))
            elif rec.out.count('\x02') != 1 + sum(a.count('\x02') for a in texts(ops)) and not any('\x02' in a for a in texts(ops)):
                bad.append(('lost', 'call %d %r: text the program had printed before shows %d times' % (i, op[:8], rec.out.count('\x02'))))
        if op[0] == 'A':
            kinds.append('exit' if rec.exited is not None else 'ok' if rec.fields[0] == '0' else 'err')
    ctx.see('calls watched', n)
    s = ctx.schemas[next(op[2] for op in ops if op[0] == 'I')]
    return bad, '%s%s/%s' % ('debug ' if s.get('debug') else '', s.get('defect', ''), '+'.join(kinds[:3])), True


def texts(ops):
    return [a for op in ops for a in op if isinstance(a, str)]
