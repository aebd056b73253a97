"""C03: every spelling of an option means the same."""
from .. import gen
from ..common import make_schemas, script
from ..model import Parse
from ..sim import Sim, sig_of

RULE = ('an assignment of values to options and positionals of a random table is rendered in three spellings (long=V, long V, -xV, '
        '-x V, clusters, options around positionals); every rendering is parsed and read back, and must equal the assignment; '
        'non-trivial: at least one option assigned')
BUDGET = {'quick': 48000, 'thorough': 600000}


def schemas(rng, tier):
    return make_schemas(rng, 384 if tier == 'quick' else 768, levels=1, nopts=(2, 9), p_vals=0, p_req=0, p_default=0.3,
                        p_short_only=0.1, p_long_only=0.1, p_flags=0.3, npos=(0, 3))


def assignment(rng, schema):
    """[(level, [(entry, text)], [positional texts], sub)]"""
    out = []
    lv = 0
    while True:
        ents = schema['levels'][lv]
        opts = [e for e in ents if e['k'] == 'opt']
        a = []
        for _ in range(rng.randint(0, 7)):
            if not opts:
                break
            e = rng.choice(opts)
            v = None
            if e['t'] in gen.MAPS and 'FLAG_UNIQUE_VALUE' in e.get('flags', []) and any(x is e for x, _ in a):
                continue
            if e['t'] != 'flag':
                v = gen.value(rng, e)
            a.append((e, v))
        subs = [e for e in ents if e['k'] == 'sub']
        sub = rng.choice(subs) if subs and rng.random() < 0.7 else None
        pos = []
        if sub is None:
            for e in ents:
                if e['k'] == 'pos':
                    if e.get('optional') and rng.random() < 0.4:
                        break
                    n = rng.randint(1, 4) if e['t'] in gen.VARIADIC else 1
                    pos += [gen.value(rng, e) for _ in range(n)]
        out.append((lv, a, pos, sub))
        if sub is None:
            return out
        lv = sub['level']


def render(rng, schema, asg):
    toks = []
    for lv, a, pos, sub in asg:
        ents = schema['levels'][lv]
        groups = []     # token groups in order
        k = 0
        while k < len(a):
            e, v = a[k]
            s, l = gen.names_of(e)
            # a cluster of flags, perhaps ended by an option with a value
            if v is None and s and rng.random() < 0.6:
                j = k
                c = '-'
                while j < len(a) and a[j][1] is None and gen.names_of(a[j][0])[0] and (j == k or rng.random() < 0.8):
                    c += gen.names_of(a[j][0])[0]
                    j += 1
                if j < len(a) and a[j][1] is not None and gen.names_of(a[j][0])[0] and rng.random() < 0.6:
                    c += gen.names_of(a[j][0])[0]
                    if a[j][1] != '' and rng.random() < 0.5:
                        groups.append([c + a[j][1]])
                    else:
                        groups.append([c, a[j][1]])
                    j += 1
                else:
                    groups.append([c])
                k = j
                continue
            groups.append(gen.spell(rng, e, v))
            k += 1
        # order of different options does not matter as long as each keeps its own order
        if rng.random() < 0.5 and not any(len(g[0]) > 2 and g[0][0] == '-' and g[0][1] != '-' for g in groups):
            order = list(range(len(groups)))
            names = [id(e) for e, _ in a]
            if len(groups) == len(a):
                rng.shuffle(order)
                seen = {}
                for pos_i, gi in enumerate(order):
                    seen.setdefault(names[gi], []).append(pos_i)
                new = [None] * len(groups)
                for n, slots in seen.items():
                    own = [gi for gi in range(len(groups)) if names[gi] == n]
                    for sl, gi in zip(sorted(slots), own):
                        new[sl] = groups[gi]
                groups = new
        subs = [e['name'] for e in ents if e['k'] == 'sub']
        plain = [not (p.startswith('-') and len(p) > 1) and not any(n.startswith(p) for n in subs) for p in pos]
        first_dash = next((i for i, ok in enumerate(plain) if not ok), len(pos))
        cut = rng.randint(0, first_dash) if pos and (first_dash < len(pos) or rng.random() < 0.4) else len(pos)
        at = sorted(rng.randint(0, len(groups)) for _ in range(cut))
        for n, (i, p) in enumerate(zip(at, pos[:cut])):
            groups.insert(i + n, [p])
        toks += [t for g in groups for t in g]
        if cut < len(pos):
            toks += ['--'] + pos[cut:]
        if sub is not None:
            toks.append(sub['name'])
    return toks


def expected(schema, asg):
    """state reached by storing the assignment directly, without any command line"""
    p = Parse(schema)
    r = p.run([])
    from ..model import Result, State
    r = Result()
    r.state = {i: [State(e) for e in lv] for i, lv in enumerate(schema['levels'])}
    p.r, p.env, p.phase = r, {}, 'parse'
    for lv, a, pos, sub in asg:
        for e, v in a:
            p.callbacks(next(st for st in r.state[lv] if st.e is e), v)
        for n, v in enumerate(pos):
            p.callbacks(p.find_pos(lv, n), v)
        if sub is not None:
            r.chain.append(sub)
            r.levels.append(sub['level'])
    return r


def cases(rng, schemas, n, ctx):
    from ..model import Fail
    while n > 0:
        s = rng.choice(schemas)
        asg = assignment(rng, s)
        try:
            want = expected(s, asg)
        except Fail:
            continue
        runs, ok = [], True
        for _ in range(3):
            args = render(rng, s, asg)
            ops, r = script(s, args, what='GK')
            if r.kind == 'ok':
                for lv in want.levels:
                    if [(x.value, x.have) for x in r.state[lv] if x.e['k'] != 'sub'] != [
                            (x.value, x.have) for x in want.state[lv] if x.e['k'] != 'sub']:
                        raise AssertionError('model disagrees with assignment: %r' % args)
            elif r.why != 'required':
                raise AssertionError('model refuses %r: %s' % (args, r.why))
            runs.append(ops)
        n -= 1
        yield {'runs': runs}


def judge(case, ress, ctx):
    bad, sigs = [], []
    for k in range(len(case['runs'])):
        s = Sim(case, ress, ctx, ('status', 'value', 'count'), run=k).go()
        bad += s.bad
        sigs += [sig_of(r) for r in s.results]
    return bad, sigs[0], len(case['runs'][0]) > 3
