"""C26: callbacks read the complete result, and their verdict is the program's."""
from .. import gen
from ..common import make_schemas, script
from ..schema import COLL, ARRAYS, MAPS, VARIADIC, opt_name
from ..sim import Sim, sig_of, kind_of

RULE = ('tables whose validators and actions read other options of every level through the public calls, whose handlers keep their own '
        'structures (also for options and positionals of custom type) and refuse some texts with a message of their own; every answer given '
        'inside a callback is compared with the reference result of the whole parse, every refusal with the status and the message; '
        'non-trivial: a callback read something or refused')
BUDGET = {'quick': 120000, 'thorough': 1800000}

SAYS = ['no good', 'refused', 'out of 100% range', 'bad value:', 'must not be']


def schemas(rng, tier):
    n = 300 if tier == 'quick' else 500
    kw = dict(nopts=(2, 6), p_vals=0.15, p_req=0.05, p_default=0.3, p_env=0.3, p_env_override=0.5, p_custom=0.4, p_rec=0.6, npos=(0, 2),
              p_group=0.3, p_deps=0.25)
    out = make_schemas(rng, n, 's', levels=2, types=['str', 'str', 'int', 'int', 'flag', 'bool', 'float', 'astr', 'aint', 'mstr', 'mint'], **kw)
    out += make_schemas(rng, n // 3, 't', levels=1, types=['int', 'str', 'aint', 'astr', 'mstr', 'mbool', 'afloat'], p_flags=0.5, **kw)
    return [wire(rng, s) for s in out]


def targets(s):
    """what may be asked of which name: {name: [(code, kind)]}"""
    by = {}

    def walk(i, parts):
        for e in s['levels'][i]:
            if e['k'] in ('opt', 'pos'):
                by.setdefault('.'.join(parts + [opt_name(e)]) if parts else '.' + opt_name(e), []).append(e)
                by.setdefault(opt_name(e), []).append(e)
            elif e['k'] == 'sub':
                by.setdefault(e['name'], []).append(None)
                walk(e['level'], parts + [e['name']])
    walk(0, [])
    out = {}
    for name, es in by.items():
        codes = [('S', '-'), ('K', '-')]
        if all(es):
            kinds = {kind_of(e['t'], e.get('handler')) for e in es}
            coll = {e['t'] for e in es}
            if len(kinds) == 1 and len(coll) == 1:
                kd = kinds.pop()
                t = coll.pop()
                if t in ARRAYS or t in VARIADIC:
                    codes += [('T', kd), ('X', kd)]
                elif t in MAPS:
                    codes += [('Y', kd), ('M', kd)]
                else:
                    codes += [('G', kd), ('G', kd)]
        out[name] = codes
    return out


def wire(rng, s):
    n = [1000]

    def uid(p):
        n[0] += 1
        return p + str(n[0])
    for lv in s['levels']:
        for e in lv:
            if e['k'] not in ('opt', 'pos'):
                continue
            h = e.get('handler')
            plain = 'default' not in e and not e.get('vals') and not e.get('flags')
            if e['t'] == 'str' and not h and plain and rng.random() < 0.4:
                h = e['handler'] = {'id': uid('h'), 'rc': 0, 'mode': 'D'}
                e['free'] = uid('f')
            if h and h['mode'] == 'D' and e['t'] == 'str':
                r = rng.random()
                if r < 0.5:
                    h['mode'] = 'E'
                elif r < 0.65 and plain:
                    h['mode'] = 'N'
                    e.pop('free', None)
                if 'default' not in e and all(v['v'] == 'rec' for v in e.get('vals', [])) and rng.random() < 0.5:
                    e['t'] = 'custom'
            if h and not h['rc'] and rng.random() < 0.4:
                h['rc'] = rng.choice([12, 29, 77, 1000, -7])
                h['trigger'] = rng.choice(['bad', 'boom', 'a', '3'])
            if e['t'] in COLL and rng.random() < 0.4 or e['k'] == 'pos' and e['t'] == 'str' and rng.random() < 0.4:
                post = e['t'] in COLL or rng.random() < 0.6
                e.setdefault('vals', []).insert(rng.randint(0, len(e.get('vals', []))), {
                    'v': 'rec', 'id': uid('v'), 'post': post, 'kind': 'n' if e['t'] in COLL else 's',
                    'rc': rng.choice([0, 0, 13, 2000]), 'trigger': rng.choice(['2', '3', 'a', 'bad'])})
    ts = targets(s)
    names = sorted(ts)

    def peeks():
        out = []
        for _ in range(rng.choice([0, 1, 2, 4])):
            if rng.random() < 0.06:
                out.append([rng.choice('SKG'), rng.choice(['nosuch', '', '.', 'a.b']), '-'])
                continue
            nm = rng.choice(names)
            code, kd = rng.choice(ts[nm])
            out.append([code, nm, kd] + ([str(rng.choice([0, 0, 1, 5]))] if code == 'X' else [rng.choice(gen.KEYS)] if code == 'M' else []))
        return out
    for lv in s['levels']:
        for e in lv:
            for v in e.get('vals', []):
                if v['v'] == 'rec':
                    if v['post']:
                        v['peek'] = peeks()
                    if v['rc'] and rng.random() < 0.8:
                        v['say'] = rng.choice(SAYS) + ' ' + v['id']
            h = e.get('handler')
            if h and h['rc'] and rng.random() < 0.8:
                h['say'] = rng.choice(SAYS) + ' ' + h['id']
            if e.get('action'):
                e['action']['peek'] = peeks()
    return s


def cases(rng, schemas, n, ctx):
    for _ in range(n):
        s = rng.choice(schemas)
        pre = rng.choice(gen.PREFIXES)
        env = gen.environment(rng, s, pre, p_set=rng.choice([0, 0.3, 0.6]), p_bad=0.02, decoys=False)
        g = gen.Args(rng, s, p_bad=0.02, p_junk=0.02, maxopts=rng.choice([2, 5, 9]))
        ops, r = script(s, g.make(), env, pre, what='GSK', free=False, pre=[['m']])
        if r.kind == 'ok' and r.chain and r.chain[-1].get('action'):
            at = rng.randint(len(ops) - sum(1 for o in ops if o[0] in 'GSKTY'), len(ops))
            for _ in range(rng.choice([1, 1, 2])):
                ops.insert(at, ['R', 0])
        ops += [['F', 0], ['q']]
        yield {'runs': [ops]}


def judge(case, ress, ctx):
    s = Sim(case, ress, ctx, ('status', 'code', 'msg', 'events', 'release', 'peek', 'value', 'set', 'count', 'path', 'live')).go()
    bad = list(s.bad)
    r = s.results[0] if s.results else None
    ops, res = case['runs'][0], ress[0]
    i = next((k for k, op in enumerate(ops) if op[0] == 'A'), None)
    peeks = sum(len(rec.peeks) for rec in res.ops.values())
    if r is not None and r.kind == 'err' and i is not None and i in res.ops and res.ops[i].fields and not bad:
        rec = res.ops[i]
        if r.why == 'callback' and r.frags and len(r.errors) <= 1:
            ctx.see('refusals by callbacks')
            line = 'prog: %s\n' % r.frags[0]
            if not rec.err.startswith(line):
                bad.append(('said', 'call %d: reports %r, expected %r first' % (i, rec.err[:200], line)))
            elif rec.err.count('\nprog: ') or (r.phase != 'parse' and rec.err != line):
                bad.append(('said', 'call %d: reports more than what the callback said: %r' % (i, rec.err[:300])))
            elif r.phase == 'parse' and rec.err[len(line):].strip().split('\n')[0][:4] != 'Try ':
                bad.append(('said', 'call %d: reports more than what the callback said: %r' % (i, rec.err[:300])))
    for k, op in enumerate(ops):
        if op[0] == 'R' and r is not None and r.kind == 'ok' and k in res.ops and res.ops[k].fields:
            a = r.chain[-1]['action']
            ev = res.ops[k].events
            if [e[:2] for e in ev] != [('A', a['id'])] or ev[0][2][:2] != (1, 1) or int(res.ops[k].fields[0]) != a['rc']:
                bad.append(('exec', 'call %d: %r returned %s' % (k, ev, res.ops[k].fields)))
    why = r.why if r is not None and r.kind == 'err' else ''
    return bad, '%s/%s/peeks%d' % (sig_of(r).split('/opts')[0], r.phase if why else '', min(peeks, 9)), peeks > 0 or why == 'callback'
