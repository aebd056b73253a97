"""C28: the same program behaves the same in every build."""
import copy
import re

from .. import gen
from ..common import make_schemas
from ..model import Parse
from ..sim import observe, path_of, sig_of
from ..schema import opt_name
from . import c01, c24

RULE = ('one script of calls is recorded with the sanitized clang build and again with gcc -O3 without assertions on fresh memory filled with '
        'garbage, with clang -O2 without regular expression support, and with the definition checks of debug builds: every status, value, '
        'text, callback event and exit must be the same, except that without regular expressions a value given to a pattern is refused; '
        'non-trivial: the record of another build was compared')
BUDGET = {'quick': 60000, 'thorough': 900000}
VARIANTS = ['asan', 'fast', 'noregex']
BATCH = 200


def schemas(rng, tier):
    n = 160 if tier == 'quick' else 260
    kw = dict(nopts=(1, 8), p_vals=0.35, p_req=0.06, p_default=0.35, p_env=0.3, p_env_override=0.4, p_group=0.3, p_deps=0.25, p_hidden=0.1,
              p_custom=0.15, p_rec=0.15, p_exit_opt=0.04, p_hint=0.2, p_version=0.7)
    out = make_schemas(rng, n, 's', levels=3, npos=(0, 3), **kw)
    out += make_schemas(rng, n // 2, 'u', levels=0, npos=(0, 2), p_flags=0.6, p_env=0.4, p_env_override=0.5, nopts=(3, 8), p_vals=0.4,
                        types=['astr', 'aint', 'afloat', 'mstr', 'mint', 'mfloat', 'mbool'], ptypes=['vstr', 'vint', 'vfloat'])
    out = [c01.dress(rng, s) if rng.random() < 0.3 else s for s in out]
    for i in range(n):
        s = c24.sound(rng, 'g%d' % i)
        t = copy.deepcopy(s)
        t['id'] += 'd'
        s['debug'] = False
        out += [s, t]
    return out


def patterned(s):
    return [e for lv in s['levels'] for e in lv if any(v['v'] == 'regex' for v in e.get('vals') or [])]


def cases(rng, schemas, n, ctx):
    pool = [s for s in schemas if not s.get('debug')]
    for _ in range(n):
        s = rng.choice(pool)
        pre = rng.choice(gen.PREFIXES)
        ops = [['I', 0, s['id'], 'prog', rng.choice(['1.0', None])], ['C', 0, 'desc', rng.choice(c01.ODD + [None, 'a program'])]]
        if pre is not None:
            ops.append(['C', 0, 'prefix', pre])
        if rng.random() < 0.3:
            ops.append(['L', 0, rng.choice([80, 40, 120]), rng.choice([30, 10, 60]), rng.choice([2, 0, 12]), rng.choice([20, 5, 0]), rng.choice('01')])
        env = gen.environment(rng, s, pre, p_set=rng.choice([0, 0, 0.4]), p_bad=0.1)
        ops += [['E', k, v] for k, v in env.items()]
        first = len(ops)
        given, sig = [], ''
        for _ in range(rng.choice([1, 1, 2, 3])):
            g = gen.Args(rng, s, p_bad=rng.choice([0, 0.05, 0.3]), p_junk=rng.choice([0, 0.1]), p_exit=0.04, maxopts=rng.choice([3, 8]))
            args = g.make()
            if rng.random() < 0.2:
                args = c01.hostile(rng, s, args)
            ops.append(['A', 0, 'prog'] + args)
            r = Parse(s, pre).run(args, env)
            if r.kind == 'ok':
                bools = {path_of(s, r.levels, r.chain, lv, opt_name(st.e)) for lv in r.levels for st in r.state[lv]
                         if st.e.get('t') in ('bool', 'flag', 'mbool')}
                ops += [op[:3] + ['b'] if op[0] in 'GY' and op[2] in bools else op for op in observe(s, r, 0, 'GSK')]
                ops.append(['B', 0])
                if rng.random() < 0.4:
                    ops.append(['R', 0])
            if rng.random() < 0.4:
                ops.append([rng.choice('HWV'), 0])
            ops.append(['F', 0])
            if not given:
                sig = sig_of(r).split('/opts')[0]
                given = [r.kind, sorted(opt_name(e) for lv in r.levels for st in r.state[lv] for e in [st.e]
                                        if st.provided and any(v['v'] == 'regex' for v in e.get('vals') or []))]
        yield {'runs': [ops], 'meta': {'given': given, 'at': first, 'sig': sig}}


HEX = re.compile(r'[0-9a-f]{16}\Z')


def view(op, rec):
    """what an operation showed, without addresses and without the bytes of a value which mean nothing"""
    if rec is None or rec.fields is None:
        return None
    f = rec.fields if rec.exited is None else rec.fields[:2]
    if op[0] in 'GTY':
        if op[-1] == 's':
            f = [x for x in f if not HEX.match(x)]
        elif op[-1] == 'b':
            f = [x[-2:] if HEX.match(x) else x for x in f]
    return [list(f), rec.out, rec.err, [list(e) for e in rec.events]]


def judge(case, ress, ctx):
    ops, res, m = case['runs'][0], ress[0], case['meta']
    crash = res.crash(len(ops))
    if crash:
        return [('crash', crash)], 'crash', True
    if 'want' not in m:
        return [], 'reference', False
    bad = []
    upto = len(ops)
    if m['build'] == 'without regular expressions' and m['refuse']:
        upto = m['refuse'][0]
        rec = res.ops.get(upto)
        if rec is None or rec.exited is not None or rec.fields[0] == '0' or 'regex' not in rec.err:
            bad.append(('pattern', 'without regular expression support %r is not refused: %r' % (ops[upto][2:], rec and (rec.fields, rec.err))))
    for i in range(upto):
        got = view(ops[i], res.ops.get(i))
        if got != m['want'][i]:
            bad.append(('differs', '%s: call %d %r gives %r, otherwise %r' % (m['build'], i, ops[i][:8], got, m['want'][i])))
            break
    ctx.see('records compared: ' + m['build'])
    return bad, '%s/%s/%d' % (m['build'], m['sig'], min(sum(op[0] == 'A' for op in ops), 3)), True


def followups(case, ress, ctx):
    m = case['meta']
    if 'want' in m:
        return []
    ops = case['runs'][0]
    want = [view(op, ress[0].ops.get(i)) for i, op in enumerate(ops)]
    s = ctx.schemas[ops[0][2]]
    out = [{'variant': 'fast', 'runs': [ops], 'meta': {'want': want, 'sig': m['sig'], 'build': 'gcc -O3 -DNDEBUG'}}]
    pats = patterned(s)
    if not pats:
        out.append({'variant': 'noregex', 'runs': [ops], 'meta': {'want': want, 'sig': m['sig'], 'build': 'without regular expressions', 'refuse': None}})
    elif m['given'][:1] == ['ok'] and m['given'][1] and not any('default' in e for e in pats):
        out.append({'variant': 'noregex', 'runs': [ops], 'meta': {'want': want, 'sig': m['sig'], 'build': 'without regular expressions', 'refuse': [m['at']]}})
    if s['id'] + 'd' in ctx.schemas:
        twin = [[op[0], op[1], op[2] + 'd'] + op[3:] if op[0] == 'I' else op for op in ops]
        out.append({'runs': [twin], 'meta': {'want': want, 'sig': m['sig'], 'build': 'definition checks on'}})
    return out
