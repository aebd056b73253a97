"""C18: usage and error reports describe the actual command and failure."""
from .. import gen
from ..common import make_schemas, script
from ..model import ERR_NAMES
from ..sim import Sim, sig_of
from ..schema import VARIADIC

RULE = ('failing and succeeding command lines at every level of command trees with random positionals and program names, usage printed '
        'on request after a parse, and every status value; usage lines are compared exactly, reports by program name, command chain and '
        'stream; non-trivial: a usage line or an error report was produced or a success was silent')
BUDGET = {'quick': 180000, 'thorough': 2700000}
OWN = ('callback',)     # failures reported by user callbacks have no text of the library


def schemas(rng, tier):
    n = 384 if tier == 'quick' else 768
    a = make_schemas(rng, n, 's', levels=3, nopts=(1, 5), p_vals=0.2, p_req=0.1, p_default=0.2, npos=(0, 3), p_deps=0.15, p_group=0.2,
                     p_env=0.15, p_hidden=0.2)
    b = make_schemas(rng, n // 4, 't', levels=0, nopts=(0, 3), npos=(1, 4), p_vals=0.1, p_default=0.1)
    return a + b


def usage_line(prog, schema, r):
    ents = schema['levels'][r.levels[-1]]
    out = 'Usage: ' + ' '.join([prog] + [e['name'] for e in r.chain]) + ' [OPTIONS]'
    for e in ents:
        if e['k'] == 'pos':
            dots = '...' if e['t'] in VARIADIC else ''
            out += (' [%s%s]' if e.get('optional') else ' <%s%s>') % (e['name'], dots)
    if any(e['k'] == 'sub' for e in ents):
        out += ' COMMAND'
    return out


def cases(rng, schemas, n, ctx):
    for i in range(n):
        if i % 200 == 0:
            ops = [['I', 0, schemas[0]['id'], 'prog', '1.0']]
            ks = list(range(len(ERR_NAMES)))
            rng.shuffle(ks)
            yield {'runs': [ops + [['Z', str(k)] for k in ks]]}
            continue
        s = rng.choice(schemas)
        prog = rng.choice(['prog', 'p', 'my-tool', '/usr/bin/x', 'a b', '%s%n', 'prog.exe', 'quite-a-long-program-name-for-a-small-tool'])
        g = gen.Args(rng, s, p_bad=0.08, p_junk=0.25, maxopts=4, p_sub=0.8)
        args = g.make()
        if rng.random() < 0.15 and args:
            args = args[:rng.randrange(len(args))]
        env = gen.environment(rng, s, None, p_set=rng.choice([0, 0.5]), p_bad=0.3, decoys=False)
        ops, r = script(s, args, env, what='', prog=prog, free=False)
        if r.kind == 'ok':
            ops += [['W', 0]] * rng.choice([0, 1, 1])
        ops.append(['F', 0])
        yield {'runs': [ops]}


def texts(case, ress):
    bad = []
    seen = {}
    for i, op in enumerate(case['runs'][0]):
        rec = ress[0].ops.get(i)
        if op[0] != 'Z' or rec is None or not rec.fields:
            continue
        t = rec.fields[0]
        if t in ('~', '='):
            bad.append(('strerror', 'status %s has no text' % op[1]))
        elif t in seen:
            bad.append(('strerror', 'statuses %s and %s share the text %s' % (seen[t], op[1], t)))
        seen[t] = op[1]
    return bad, 'statuses', True


def judge(case, ress, ctx):
    ops = case['runs'][0]
    if any(o[0] == 'Z' for o in ops):
        crash = ress[0].crash(len(ops))
        return ([('crash', crash)], 'crash', True) if crash else texts(case, ress)
    s = Sim(case, ress, ctx, ('status', 'quiet')).go()
    bad = s.bad
    r = s.results[0] if s.results else None
    if bad or r is None:
        return bad, sig_of(r), True
    prog = ops[0][3]
    schema = ctx.schemas[ops[0][2]]
    for i, op in enumerate(ops):
        rec = ress[0].ops.get(i)
        if rec is None or rec.fields is None:
            continue
        if op[0] == 'W':
            ctx.see('usage lines')
            if rec.out != usage_line(prog, schema, r) + '\n' or rec.err:
                bad.append(('usage', 'usage is %r, expected %r' % (rec.out + rec.err, usage_line(prog, schema, r))))
        if op[0] != 'A' or r.kind != 'err':
            continue
        ctx.see('reports')
        lines = rec.err.split('\n')
        if r.why not in OWN:
            first = lines[0]
            if not first.startswith(prog + ': ') or len(first) < len(prog) + 5:
                bad.append(('report', 'error report is %r' % rec.err[:300]))
        if r.phase == 'parse':
            ctx.see('usage lines')
            u = usage_line(prog, schema, r)
            if r.why == 'depth':
                continue
            if rec.out.strip('\n').split('\n') != [u]:
                bad.append(('usage', 'reports usage %r, expected %r' % (rec.out[:300], u)))
            hint = "Try '%s --help' for more information." % ' '.join([prog] + [e['name'] for e in r.chain])
            if not [x for x in lines if x][-1:] == [hint]:
                bad.append(('hint', 'report ends with %r, expected %r' % (lines[-3:], hint)))
    return bad, '%s/%s' % (sig_of(r).split('/opts')[0], r.phase), True
