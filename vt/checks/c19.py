"""C19: help and version requests end the program cleanly at once."""
from .. import gen
from ..common import make_schemas
from ..model import Parse
from ..sim import Sim, sig_of
from ..schema import opt_name
from .c18 import usage_line

RULE = ('command lines in which help, version or a user-defined exit option is reached in any spelling and cluster at any level, with '
        'valid arguments before and arbitrary ones, also invalid, after it, relations violated and required ones missing; output and '
        'exit status are compared with those of the bare request; non-trivial: the process was ended by the request')
BUDGET = {'quick': 100000, 'thorough': 1500000}


def schemas(rng, tier):
    n = 384 if tier == 'quick' else 768
    return make_schemas(rng, n, 's', levels=3, nopts=(1, 6), p_vals=0.25, p_req=0.25, p_default=0.25, npos=(0, 3), p_deps=0.25, p_group=0.3,
                        p_env=0.3, p_hidden=0.15, p_version=0.7, p_exit_opt=0.3, p_rec=0.1, p_custom=0.15)


def cases(rng, schemas, n, ctx):
    left = n
    while left > 0:
        s = rng.choice(schemas)
        prog = rng.choice(['prog', 'my-tool', '%s', 'p'])
        ver = rng.choice(['1.0', '2.10.3-rc1', '%d', ''])
        desc = rng.choice([None, 'A tool.', 'Line one\nline two', '%s%n', '', 'w' * 300])
        g = gen.Args(rng, s, p_bad=0.0, p_junk=0.0, maxopts=4, p_exit=0.6, p_sub=0.8)
        args = g.make()
        env = gen.environment(rng, s, None, p_set=0.3, p_bad=0.3, decoys=False)
        r = Parse(s).run(args, env)
        if r.kind != 'exit':
            continue
        left -= 1
        # anything may follow
        if rng.random() < 0.6:
            g2 = gen.Args(rng, s, p_bad=0.4, p_junk=0.6)
            args = args + [g2.junk(0)[0] for _ in range(rng.randint(0, 3))] + (g2.make() if rng.random() < 0.5 else [])
            r = Parse(s).run(args, env)
            if r.kind != 'exit':
                left += 1
                continue
        head = [['I', 0, s['id'], prog, ver]]
        if desc is not None:
            head.append(['C', 0, 'desc', desc])
        full = head + [['E', k, v] for k, v in env.items()] + [['m', 0], ['A', 0, prog] + args]
        names = [e['name'] for e in r.chain]
        minimal = head + [['A', 0, prog] + names + ['--help' if r.exit_kind != 'version' else '--version']]
        yield {'runs': [full, minimal], 'meta': {'prog': prog, 'ver': ver, 'desc': desc}}


def judge(case, ress, ctx):
    s = Sim(case, ress, ctx, ('status', 'live', 'events')).go()
    bad = s.bad
    r = s.results[0] if s.results else None
    if bad or r is None or r.kind != 'exit':
        return bad, sig_of(r), r is not None
    m = case['meta']
    ops, mops = case['runs']
    rec = ress[0].ops[len(ops) - 1]
    rec2 = ress[1].ops.get(len(mops) - 1)
    crash = ress[1].crash(len(mops))
    if crash or rec2 is None:
        return [('crash', crash or 'no record')], 'crash', True
    schema = ctx.schemas[ops[0][2]]
    ctx.see('requests')
    if rec.err or ress[0].tail_err:
        bad.append(('stderr', 'wrote %r to the error stream' % (rec.err + ress[0].tail_err)[:300]))
    if r.exit_kind == 'custom':
        if rec.out:
            bad.append(('output', 'exit option wrote %r' % rec.out[:300]))
    elif r.exit_kind == 'version':
        want = '%s v%s\n' % (m['prog'], m['ver']) + ('\n%s\n' % m['desc'] if m['desc'] is not None else '')
        if rec.out != want:
            bad.append(('output', 'version output %r, expected %r' % (rec.out[:300], want)))
    else:
        u = usage_line(m['prog'], schema, r) + '\n'
        if not rec.out.startswith(u):
            bad.append(('output', 'help starts %r, expected %r' % (rec.out[:200], u)))
        elif len(rec.out) < len(u) + 20 or not rec.out.endswith('\n'):
            bad.append(('output', 'help is incomplete: %r' % rec.out[:300]))
        if rec2.exited is None or rec.out != rec2.out:
            bad.append(('output', 'help differs from that of the bare request: %r and %r' % (rec.out[-300:], rec2.out[-300:])))
        # every visible element of that level, and none of another level only
        for e in schema['levels'][r.levels[-1]]:
            if e['k'] in ('opt', 'pos', 'sub') and 'FLAG_HIDDEN' not in e.get('flags', []) and opt_name(e) not in rec.out:
                bad.append(('output', 'help lacks %s' % opt_name(e)))
    return bad, '%s/%d' % (sig_of(r).split('/opts')[0], min(len(ops[-1]) - 3, 8)), True
