"""C16: help lists every visible element once and nothing hidden."""
import re

from .. import gen, helpfmt
from ..common import make_schemas
from ..schema import opt_name
from ..sim import Sim

RULE = ('help of every level of random tables with groups, hidden elements, hints, defaults, validators, environment names and markers, '
        'under random layouts; ignoring white space, headings, entries and their details must appear once, in order, and nothing hidden; '
        'non-trivial: a help text was produced')
BUDGET = {'quick': 160000, 'thorough': 2400000}


def schemas(rng, tier):
    n = 960 if tier == 'quick' else 1536
    out = make_schemas(rng, n, 's', levels=2, nopts=(0, 10), p_vals=0.45, p_req=0.15, p_default=0.4, npos=(0, 4), p_group=0.4, p_env=0.4,
                       p_hidden=0.3, p_hint=0.25, p_dep_flags=0.3, p_exit_opt=0.1, p_bad_default=0.0)
    k = 0
    for s in out:
        if rng.random() < 0.4:
            gen.formatters(rng, s)
        for lv in s['levels']:
            for e in lv:
                if e.get('help') is not None:
                    # a word of its own, so that an entry shown twice or wrongly is seen
                    k += 1
                    w = e['help'].split(' ')
                    w.insert(rng.randint(0, len(w)), 'uq%dz' % k)
                    e['help'] = ' '.join(w)
                    e['uq'] = 'uq%dz' % k
                    if rng.random() < 0.08:
                        e['help'] += ' ' + ' '.join(rng.choice(gen.WORDS) for _ in range(rng.choice([30, 150])))
                if e['k'] == 'opt' and rng.random() < 0.04 and e.get('vals') is None and e['t'] == 'str' and 'default' not in e:
                    e['vals'] = [{'v': 'cstr', 'c': ['choice%d' % i * rng.choice([1, 6]) for i in range(rng.choice([2, 30, 100]))]}]
    return out


def chain_to(schema, lv):
    """names of the commands leading to a level"""
    for i, ents in enumerate(schema['levels']):
        for e in ents:
            if e['k'] == 'sub' and e['level'] == lv:
                return chain_to(schema, i) + [e['name']]
    return []


def layout(rng):
    r = rng.random()
    if r < 0.3:
        return ['80', '30', '2', '20', '0']
    return [str(rng.choice([0, 1, 40, 60, 80, 100, 120, 200, 1000, rng.randint(0, 300)])),
            str(rng.choice([0, 1, 10, 20, 30, 40, 60, rng.randint(0, 120)])),
            str(rng.choice([0, 2, 4, rng.randint(0, 20)])), str(rng.choice([0, 5, 10, 20, 30, 200])), rng.choice('01')]


def cases(rng, schemas, n, ctx):
    for _ in range(n):
        s = rng.choice(schemas)
        lv = rng.randrange(len(s['levels'])) if rng.random() < 0.7 else 0
        prog = 'prog'
        lay = layout(rng)
        pre = rng.choice(gen.PREFIXES)
        ops = [['I', 0, s['id'], prog, '1.0'], ['L', 0] + lay]
        if pre is not None:
            ops.append(['C', 0, 'prefix', pre])
        if lv == 0 and rng.random() < 0.5:
            ops.append(['H', 0])
        else:
            ops.append(['A', 0, prog] + chain_to(s, lv) + [rng.choice(['--help', '-h'])])
        yield {'runs': [ops], 'meta': {'lv': lv, 'lay': lay, 'pre': pre}}


def judge(case, ress, ctx):
    ops = case['runs'][0]
    crash = ress[0].crash(len(ops))
    if crash:
        return [('crash', crash)], 'crash', True
    m = case['meta']
    schema = ctx.schemas[ops[0][2]]
    out = ress[0].ops[len(ops) - 1].out
    if ops[-1][0] == 'A':
        out = out.partition('\n')[2]
    short, spaces = int(m['lay'][3]), m['lay'][4] == '1'
    ents = schema['levels'][m['lv']]
    bad = []
    sq = helpfmt.squash(out)
    at = 0
    secs = helpfmt.sections(ents)
    order = []
    for head, es in secs:
        order.append((None, helpfmt.squash(head + ':'), head))
        for e in es:
            h, _ = helpfmt.hint_text(e, short, spaces)
            order.append((e, helpfmt.squash(helpfmt.names_text(e) + (' <%s>' % h if h is not None else '') + ' - ' + helpfmt.help_of(e)),
                          helpfmt.names_text(e)))
    starts = []
    for e, text, what in order:
        j = sq.find(text, at)
        ctx.see('headings and entries looked for')
        if j < 0:
            where = 'at all' if text not in sq else 'in its place'
            kind = 'missing' if text not in sq else 'order'
            bad.append((kind, '%s %r does not appear %s in %r' % ('heading' if e is None else 'entry', what, where, out[:1500])))
            break
        starts.append((j, j + len(text), e))
        at = j + len(text)
    if not bad:
        if starts and starts[0][0] != 0:
            bad.append(('extra', 'help starts with %r' % out[:200]))
        for k, (j, end, e) in enumerate(starts):
            nxt = starts[k + 1][0] if k + 1 < len(starts) else len(sq)
            seg = sq[end:nxt]
            if e is None:
                if seg:
                    bad.append(('extra', 'between a heading and its first entry: %r' % seg))
                continue
            want = helpfmt.details(schema, m['pre'], e, short, spaces)
            ctx.see('details looked for', len(want))
            rest = seg
            for kind, text in want:
                t = helpfmt.squash(text)
                if t not in rest:
                    bad.append(('detail', '%s: %s %r not shown, only %r' % (opt_name(e), kind, text, seg)))
                rest = rest.replace(t, '', 1)
            if k + 1 == len(starts) and any(x['k'] == 'sub' for x in ents):
                rest = rest.partition("Run'prog")[0]
            for w in ('default:', 'env:', '(exit)', '(required)', '(deprecated)', '(experimental)', 'uq'):
                if w in rest:
                    bad.append(('detail', '%s: shows %r, which it does not have, in %r' % (opt_name(e), w, seg)))
            if re.search(r'[A-Za-z0-9]{3,}', re.sub('pattern|range:|count:', '', rest)):
                bad.append(('extra', '%s: unexpected text %r' % (opt_name(e), rest[:200])))
    shown = {e.get('uq') for _, _, e in starts if e is not None}
    for i, lv in enumerate(schema['levels']):
        for e in lv:
            u = e.get('uq')
            if u is None:
                continue
            c = sq.count(u)
            visible = i == m['lv'] and (e['k'] == 'pos' or 'FLAG_HIDDEN' not in e.get('flags', []))
            if visible and c != 1 and not bad:
                bad.append(('twice', '%s is shown %d times' % (opt_name(e), c)))
            elif not visible and c:
                bad.append(('hidden', '%s is shown although %s' % (opt_name(e), 'hidden' if i == m['lv'] else 'of another level')))
    hidden = [e for e in ents if e['k'] == 'opt' and e['l'] and 'FLAG_HIDDEN' in e.get('flags', [])]
    for e in hidden:
        ctx.see('hidden elements looked for')
        if re.search(r'(?<![\w-])--' + re.escape(e['l']) + r'(?![\w-])', out):
            bad.append(('hidden', 'hidden --%s appears' % e['l']))
    sig = '%s/n%d/sec%d' % (ops[-1][0], min(len(order), 20), len(secs))
    return bad, sig, bool(out)
