"""C14: executing runs exactly the selected command's action once."""
import re

from .. import gen
from ..common import make_schemas, script
from ..model import E
from ..schema import opt_name
from ..sim import Sim, sig_of

RULE = ('command trees with and without actions and hidden commands; random command lines, then execution once or twice; the monitor '
        'sees every action call with its context and data pointers, the status and the listing; non-trivial: execution happened')
BUDGET = {'quick': 175000, 'thorough': 2625000}


def schemas(rng, tier):
    return make_schemas(rng, 480 if tier == 'quick' else 960, levels=3, maxsub=4, nopts=(0, 3), p_vals=0.0, p_req=0.05, p_default=0.3,
                        npos=(0, 1), p_action=0.6, p_hidden=0.2, types=['flag', 'str', 'int'], p_version=0.1)


def cases(rng, schemas, n, ctx):
    for _ in range(n):
        s = rng.choice(schemas)
        g = gen.Args(rng, s, p_bad=0.02, p_junk=0.02, maxopts=1, p_sub=rng.choice([0.3, 0.8, 0.95]))
        args = g.make()
        ops, r = script(s, args, what='', free=False)
        if r.kind == 'ok':
            if rng.random() < 0.2:
                ops.append(['L', 0, '80', str(rng.choice([0, 10, 30, 60])), '2', '20', '0'])
            ops += [['B', 0]] + [['R', 0]] * rng.choice([1, 1, 2])
        ops.append(['F', 0])
        yield {'runs': [ops]}


def listing(out):
    """command paths shown in a listing"""
    lines = out.split('Available commands:\n', 1)
    if len(lines) < 2:
        return None
    got = []
    for ln in lines[1].split('\n'):
        if ln.startswith('Run '):
            break
        if ln.startswith('  '):
            got.append(ln.strip())
    return got


def visible_exec(schema, prog):
    """(path, help) of the visible executable commands of the first two levels"""
    out = []
    for e in schema['levels'][0]:
        if e['k'] != 'sub' or 'FLAG_HIDDEN' in e.get('flags', []):
            continue
        if e.get('action'):
            out.append((prog + ' ' + e['name'], e['help']))
        for f in schema['levels'][e['level']]:
            if f['k'] == 'sub' and f.get('action') and 'FLAG_HIDDEN' not in f.get('flags', []):
                out.append((prog + ' ' + e['name'] + ' ' + f['name'], f['help']))
    return out


def visible_all(schema, level, base):
    out = []
    for e in schema['levels'][level]:
        if e['k'] == 'sub' and 'FLAG_HIDDEN' not in e.get('flags', []):
            out.append((base + ' ' + e['name'], e['help']))
            out += visible_all(schema, e['level'], base + ' ' + e['name'])
    return out


def judge(case, ress, ctx):
    s = Sim(case, ress, ctx, ('status', 'exec')).go()
    r = s.results[0] if s.results else None
    bad = s.bad
    ran = False
    sig = sig_of(r).split('/opts')[0]
    if not bad and r is not None:
        schema = ctx.schemas[case['runs'][0][0][2]]
        for i, op in enumerate(case['runs'][0]):
            rec = ress[0].ops.get(i)
            if rec is None:
                continue
            acts = [e for e in rec.events if e[0] == 'A']
            if op[0] != 'R':
                if acts:
                    bad.append(('action-outside', 'action %s ran during call %d %s' % (acts, i, op[0])))
                continue
            ran = True
            ctx.see('executions')
            rc = int(rec.fields[0])
            if r.chain and r.chain[-1].get('action'):
                a = r.chain[-1]['action']
                ctx.see('actions run')
                sig += '/ran'
                if [e[1] for e in acts] != [a['id']]:
                    bad.append(('action', 'actions run: %s, expected %s once' % ([e[1] for e in acts], a['id'])))
                elif acts[0][2] != (1, 1, 1):
                    bad.append(('action-args', 'data unchanged %d, context %d, has_command %d' % acts[0][2]))
                if rc != a['rc']:
                    bad.append(('action-result', 'returned %d, action returned %d' % (rc, a['rc'])))
                continue
            if acts:
                bad.append(('action', 'unexpected action %s' % acts))
            if r.chain:
                code, want = E['INVALID_HANDLER'], visible_all(schema, r.chain[-1]['level'], r.chain[-1]['name'])
                sig += '/noaction'
            else:
                code, want = E['NO_COMMAND'], visible_exec(schema, 'prog')
                sig += '/nocommand'
            if rc != code:
                bad.append(('exec-code', 'returned %d, expected %d' % (rc, code)))
            got = listing(rec.out)
            if got is None:
                bad.append(('listing', 'no listing in %r' % rec.out[:300]))
                continue
            g = [re.sub(r'\s+', ' ', x) for x in got]
            w = ['%s - %s' % (p, h) for p, h in want]
            if sorted(g) != sorted(re.sub(r'\s+', ' ', x) for x in w):
                bad.append(('listing', 'lists %s, expected %s' % (sorted(g), sorted(w))))
    return bad, sig, ran
