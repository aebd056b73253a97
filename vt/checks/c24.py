"""C24: definition validation accepts sound tables and rejects broken ones."""
import copy
import random

from .. import gen
from ..common import script
from ..sim import Sim
from ..schema import VARIADIC, opt_name

RULE = ('random well-formed tables compiled in debug mode must initialise silently and unchanged (and then parse as the model says); '
        'mutations of such tables, one kind of defect at a random level or several at once, must end the process with a failure status and '
        'a message naming every faulty definition; the same defective tables compiled without debug must initialise silently; non-trivial: '
        'every case')
BUDGET = {'quick': 40000, 'thorough': 600000}
BATCH = 300
N = {'quick': (90, 20), 'thorough': (150, 36)}   # well-formed tables; tables per kind of defect

KN = dict(levels=2, nopts=(2, 6), p_vals=0.5, p_req=0.1, p_default=0.5, p_env=0.3, p_group=0.3, p_deps=0.4, p_hidden=0.1, npos=(0, 3),
          p_custom=0.15)


def sound(rng, sid, **kw):
    s = gen.Gen(rng, **dict(KN, **kw)).schema(sid)
    for lv in s['levels']:
        for e in lv:
            if e.get('t') == 'str' and 'default' not in e and not e.get('vals') and not e.get('handler') and rng.random() < 0.4 and (
                    e['k'] == 'opt' or e.get('optional')) and 'FLAG_REQUIRED' not in e.get('flags', []):
                e['default'] = 'abc'
                e['vals'] = [{'v': 'regex', 'pattern': '^[a-z]+$', 'py': r'^[a-z]+\Z'}, {'v': 'length', 'a': 1, 'b': 9}]
    s['debug'] = True
    return s


def chain(sid, depth):
    """a table nested this deep"""
    lv = []
    for d in range(depth + 1):
        ents = [{'k': 'help'}, {'k': 'opt', 't': 'int', 's': 'n', 'l': 'num', 'help': 'a number'}]
        if d < depth:
            ents.append({'k': 'sub', 'name': 'deep%d' % d, 'help': 'go on', 'level': d + 1})
        lv.append(ents)
    return {'id': sid, 'levels': lv, 'debug': True}


def token(e):
    if e['k'] == 'opt':
        return ('--' + e['l']) if e['l'] else ('-' + e['s'] if e['s'] else '')
    return e.get('name') or ''


def opts(lv, f=lambda e: True):
    return [e for e in lv if e['k'] == 'opt' and f(e)]


def of(lv, *ks):
    return [e for e in lv if e['k'] in ks]


def plain(e):
    return not e.get('handler')


class Skip(Exception):
    pass


def one(rng, xs):
    if not xs:
        raise Skip()
    return rng.choice(xs)


# each kind: (name, function(rng, schema, level entries) -> texts the message must hold)
def d_help_option(rng, s, lv):
    lv[:] = [e for e in lv if e['k'] != 'help']
    return ['elp']


def d_help_text(rng, s, lv):
    e = one(rng, of(lv, 'opt', 'pos', 'sub'))
    del e['help']
    return [token(e)]


def d_handler(rng, s, lv):
    e = one(rng, of(lv, 'opt', 'pos'))
    e['handler'] = 'NULL'
    e.pop('default', None)
    return [token(e)]


def d_name(rng, s, lv):
    e = one(rng, of(lv, 'opt', 'pos', 'sub'))
    for o in lv:
        for k in ('req', 'conf'):
            if opt_name(e) in o.get(k, []):
                o[k] = [x for x in o[k] if x != opt_name(e)]
                if not o[k]:
                    del o[k]
    if e['k'] == 'opt':
        e['s'] = e['l'] = None
    else:
        e['name'] = rng.choice([None, ''])
    return []


def d_dup_long(rng, s, lv):
    a = one(rng, opts(lv, lambda e: e['l']))
    b = one(rng, [e for e in opts(lv) if e is not a])
    b['l'] = rng.choice([a['l'], 'help'])
    b.pop('req', None), b.pop('conf', None)
    return ['--' + b['l']]


def d_dup_short(rng, s, lv):
    a = one(rng, opts(lv, lambda e: e['s']))
    b = one(rng, [e for e in opts(lv) if e is not a])
    b['s'] = rng.choice([a['s'], 'h'])
    return ['-' + b['s']]


def d_dup_pos(rng, s, lv):
    a = one(rng, opts(lv, lambda e: e['l']))
    b = one(rng, of(lv, 'pos', 'sub'))
    b['name'] = a['l']
    return ['--' + a['l']]


def d_long_form(rng, s, lv):
    e = one(rng, opts(lv, lambda e: e['l']))
    e['l'] = rng.choice(['-' + e['l'], '--' + e['l'], e['l'] + ' x', ' ' + e['l'], e['l'] + ' ', e['l'] + '.y', '.' + e['l'], ''])
    return ['--' + e['l']] if e['l'] else []


def d_short_form(rng, s, lv):
    e = one(rng, opts(lv))
    e['s'] = rng.choice([' ', '-'])
    return [token(e)]


def d_late_option(rng, s, lv):
    one(rng, of(lv, 'sub'))
    lv.append({'k': 'opt', 't': rng.choice(['flag', 'int', 'astr']), 's': None, 'l': 'late-one', 'help': 'too late'})
    if rng.random() < 0.4:
        e = lv.pop()
        i = [x['k'] for x in lv].index('sub')
        lv.insert(i + 1, e)
    return ['--late-one']


def P(name, t='str', **kw):
    return dict({'k': 'pos', 't': t, 'name': name, 'help': 'positional'}, **kw)


def no_subs(rng, lv):
    if of(lv, 'sub'):
        raise Skip()
    lv[:] = [e for e in lv if e['k'] != 'pos']


def d_pos_order(rng, s, lv):
    no_subs(rng, lv)
    lv += [P('first', optional=True)] + ([P('mid', optional=True)] if rng.random() < 0.5 else []) + [P('second', rng.choice(['str', 'int']))]
    return ['second']


def d_many_order(rng, s, lv):
    no_subs(rng, lv)
    lv += [P('rest', rng.choice(VARIADIC)), P('second', rng.choice(['str', 'int', 'bool']))]
    return ['second']


def d_two_many(rng, s, lv):
    no_subs(rng, lv)
    lv += [P('one', rng.choice(VARIADIC)), P('two', rng.choice(VARIADIC))]
    return ['two']


def d_many_optional(rng, s, lv):
    no_subs(rng, lv)
    lv += [P('one', optional=True), P('two', rng.choice(VARIADIC))]
    return ['two']


def d_mixed(rng, s, lv):
    one(rng, of(lv, 'sub'))
    i = [x['k'] for x in lv].index('sub')
    lv[:] = [e for e in lv if e['k'] != 'pos']
    i = [x['k'] for x in lv].index('sub')
    lv.insert(i if rng.random() < 0.5 else len(lv), P('needed'))
    return ['sub']


def d_req_unknown(rng, s, lv):
    e = one(rng, opts(lv))
    lv = next(l2 for l2 in s['levels'] if any(x is e for x in l2))      # the whole level, also when only part of it may be changed
    others = [opt_name(o) for l2 in s['levels'] if l2 is not lv for o in of(l2, 'opt', 'pos')]
    here = {opt_name(o) for o in lv if o['k'] not in ('group', 'gend')}
    cand = [x for x in others if x and x not in here] + ['no-such', 'nosuch2']
    k = rng.choice(['req', 'conf'])
    n = rng.choice(cand)
    e[k] = e.get(k, []) + [n]
    return [token(e), n]


def d_req_conf(rng, s, lv):
    e = one(rng, opts(lv))
    o = one(rng, [x for x in opts(lv) if x is not e])
    n = opt_name(o)
    for k in ('req', 'conf'):
        e[k] = [x for x in e.get(k, []) if x != n]
        e[k].insert(rng.randint(0, len(e[k])), n)
    return [token(e), n]


def d_flag_default(rng, s, lv):
    e = one(rng, opts(lv, lambda e: e['t'] == 'flag'))
    e['default'] = rng.random() < 0.5
    return [token(e)]


def d_default(rng, s, lv):
    e = one(rng, [e for e in of(lv, 'opt', 'pos') if e['t'] in ('str', 'int', 'float') and plain(e) and
                  (e['k'] == 'opt' or e.get('optional')) and 'FLAG_REQUIRED' not in e.get('flags', [])])
    good = []
    if e['t'] == 'str':
        e['default'] = rng.choice(['abc', 'ABC1', 'toolongtext', ''])
        n = len(e['default'])
        bad = one(rng, [{'v': 'length', 'a': n + 1, 'b': n + 9}, {'v': 'cstr', 'c': ['x', 'y']},
                        {'v': 'regex', 'pattern': '^[0-9]+$', 'py': '^[0-9]+$'}] + ([{'v': 'length', 'a': 0, 'b': n - 1}] if n else []))
        good = [{'v': 'length', 'a': 0, 'b': 99}, {'v': 'regex', 'pattern': '^[A-Za-z0-9]*$', 'py': '^[A-Za-z0-9]*$'}]
    else:
        e['default'] = rng.choice([5, -3, 1000, 2**40]) if e['t'] == 'int' else rng.choice([5.0, 0.25, -3.5])
        n = int(e['default'])
        bad = one(rng, [{'v': 'range', 'a': n + 2, 'b': n + 9}, {'v': 'range', 'a': n - 9, 'b': n - 2}] + (
            [{'v': 'cint', 'c': [n + 1, n - 1]}] if e['t'] == 'int' else [{'v': 'cfloat', 'c': [n + 1.5]}]))
        good = [{'v': 'range', 'a': n - 5, 'b': n + 5}]
    e['vals'] = [bad]
    for g in good:
        if rng.random() < 0.4:
            e['vals'].insert(rng.randint(0, len(e['vals'])), g)
    return [token(e)]


def d_sub_empty(rng, s, lv):
    e = one(rng, of(lv, 'sub'))
    e['level'] = None
    return [token(e)]


def d_pos_dep(rng, s, lv):
    e = one(rng, of(lv, 'pos'))
    o = one(rng, opts(lv))
    e[rng.choice(['req', 'conf'])] = [opt_name(o)]
    return [token(e)]


def d_pos_default(rng, s, lv):
    no_subs(rng, lv)
    lv.append(P('needed', 'int', default=3))
    return ['needed']


def d_deep(rng, s, lv):
    """hang a chain below this level so that the whole is nested too deep"""
    depth = {0: 0}
    for i, l2 in enumerate(s['levels']):
        for e in of(l2, 'sub'):
            depth[e['level']] = depth[i] + 1
    i = next(k for k, l2 in enumerate(s['levels']) if l2 is lv)
    lv[:] = [e for e in lv if e['k'] != 'pos']
    n = 8 - depth[i] + rng.choice([1, 1, 2])
    cur = lv
    for k in range(n):
        new = [{'k': 'help'}]
        s['levels'].append(new)
        cur.append({'k': 'sub', 'name': 'dd%d' % k, 'help': 'go on', 'level': len(s['levels']) - 1})
        cur = new
    return ['dd']


def d_circular(rng, s, lv):
    """a command that leads back to its own or an enclosing level"""
    s['forward'] = True
    i = next(k for k, l2 in enumerate(s['levels']) if l2 is lv)
    lv[:] = [e for e in lv if e['k'] != 'pos']
    lv.append({'k': 'sub', 'name': 'again', 'help': 'round and round', 'level': rng.choice([0, i])})
    return []


KINDS = {k[2:]: v for k, v in sorted(globals().items()) if k.startswith('d_') and callable(v)}
SAFE = ['help_text', 'handler', 'req_unknown', 'default', 'flag_default']   # may be combined, on distinct entries


def defect(rng, sid, kind):
    for _ in range(60):
        # the trouble may sit below the first level
        s = sound(rng, sid, types=['flag', 'str', 'int', 'float', 'bool', 'astr', 'mint'])
        lv = rng.choice(s['levels'])
        try:
            if kind == 'several':
                want = []
                for k in rng.sample(SAFE, rng.randint(2, 3)):
                    lv = rng.choice(s['levels'])
                    free = [e for e in lv if not e.get('_hit')]
                    view = list(free)
                    before = copy.deepcopy(view)
                    w = KINDS[k](rng, s, view)
                    for a, b in zip(before, view):
                        if a != b:
                            b['_hit'] = True
                    want.append(w)
                for l2 in s['levels']:
                    for e in l2:
                        e.pop('_hit', None)
            else:
                want = [KINDS[kind](rng, s, lv)]
        except Skip:
            continue
        s['defect'] = kind
        s['want'] = [x for w in want for x in w if x and x != 'sub']
        return s
    raise AssertionError(kind)


def schemas(rng, tier):
    good, per = N[tier]
    out = [sound(rng, 'g%d' % i) for i in range(good)]
    out += [chain('c%d' % d, d) for d in (1, 7, 8)]
    n = 0
    for kind in list(KINDS) + ['several']:
        for _ in range(per):
            s = defect(rng, 'd%d' % n, kind)
            out.append(s)
            if rng.random() < 0.3:
                q = copy.deepcopy(s)
                q['id'], q['debug'] = 'q%d' % n, False
                out.append(q)
            n += 1
    return out


def cases(rng, schemas, n, ctx):
    for _ in range(n):
        s = rng.choice(schemas)
        if 'defect' in s:
            ops = [['I', 0, s['id'], rng.choice(['prog', 'other']), '1.0']]
            yield {'runs': [ops]}
            continue
        args = gen.Args(rng, s, p_bad=0.03, p_junk=0.03).make()
        ops, r = script(s, args, what='G')
        yield {'runs': [ops]}


def judge(case, ress, ctx):
    ops = case['runs'][0]
    res = ress[0]
    s = ctx.schemas[ops[0][2]]
    kind = s.get('defect')
    crash = res.crash(len(ops))
    if crash:
        return [('crash/%s' % kind, crash)], 'crash', True
    rec = res.ops[0]
    bad = []
    if kind and s['debug']:
        ctx.see('defective definitions')
        if rec.exited is None:
            bad.append(('accepted/' + kind, 'defect "%s" accepted (should name %s)' % (kind, s['want'])))
        elif res.code == 0:
            bad.append(('exit/' + kind, 'defect "%s" ends the process with status 0' % kind))
        elif not rec.err.strip():
            bad.append(('silent/' + kind, 'defect "%s" reported without a message' % kind))
        else:
            miss = [w for w in s['want'] if w not in rec.err]
            if miss:
                bad.append(('message/' + kind, 'defect "%s": %r not named in %r' % (kind, miss, rec.err[:400])))
        return bad, 'rejected/' + kind, True
    name = kind or 'sound'
    if rec.exited is not None:
        return [('rejected/' + name, 'table refused: %r' % rec.err[:400])], 'rejected/' + name, True
    if rec.out or rec.err:
        bad.append(('noise/' + name, 'initialising wrote %r' % (rec.out + rec.err)[:300]))
    if rec.fields[0] != '1':
        bad.append(('changed/' + name, 'initialising changed the table'))
    if rec.fields[1] != '0':
        bad.append(('code/' + name, 'error code %s after initialising' % rec.fields[1]))
    ctx.see('definitions accepted')
    if kind:
        return bad, 'nodebug/' + kind, True
    m = Sim(case, ress, ctx, ('status', 'value')).go()
    return bad + m.bad, 'sound/%d levels' % len(s['levels']), True
