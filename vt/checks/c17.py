"""C17: help layout wraps within the width and loses no text."""
from .. import gen, helpfmt
from ..common import make_schemas
from ..schema import opt_name
from .c16 import chain_to

RULE = ('help of random tables whose texts hold long words, runs of spaces, explicit line breaks and up to thousands of characters, under '
        'line widths, columns and indents from zero up; every line is laid against the declared text; non-trivial: a help text was produced')
BUDGET = {'quick': 160000, 'thorough': 2400000}


def text(rng):
    r = rng.random()
    n = rng.choice([1, 3, 8, 20, 60]) if r < 0.95 else 600
    out = ''
    for i in range(n):
        q = rng.random()
        if q < 0.06:
            w = rng.choice('abcdefgh') * rng.choice([20, 40, 49, 50, 51, 80, 200])
        elif q < 0.12:
            w = rng.choice(['%s', '%d', '%%n', '\\n', '(x)', 'a)', '-', '--', 'caf\xe9', '\t'])
        else:
            w = rng.choice(gen.WORDS)
        sep = ' '
        q = rng.random()
        if q < 0.05:
            sep = rng.choice(['\n', '\n', '\n\n', ' \n', '\n '])
        elif q < 0.08:
            sep = ' ' * rng.randint(2, 6)
        out += w + (sep if i + 1 < n else '')
    if rng.random() < 0.03:
        out = rng.choice([' ', '\n', '  ']) + out
    if rng.random() < 0.03:
        out += rng.choice([' ', '\n', '  ', '\n\n'])
    return out


def schemas(rng, tier):
    n = 768 if tier == 'quick' else 1536
    out = make_schemas(rng, n, 's', levels=1, nopts=(0, 6), p_vals=0.15, p_req=0.1, p_default=0.2, npos=(0, 3), p_group=0.25, p_env=0.1,
                       p_hidden=0.1, p_hint=0.15, p_dep_flags=0.1)
    for s in out:
        if rng.random() < 0.2:
            gen.formatters(rng, s)
        for lv in s['levels']:
            for e in lv:
                if e.get('help') is not None:
                    e['help'] = text(rng)
    return out


def cases(rng, schemas, n, ctx):
    for _ in range(n):
        s = rng.choice(schemas)
        lv = rng.randrange(len(s['levels']))
        col = rng.choice([0, 1, 2, 10, 20, 30, 35, 40, 60, rng.randint(0, 150), rng.randint(20, 50)])
        if rng.random() < 0.6:
            width = col + rng.choice([0, 1, 2, 3, 4, 5, 10, 20, 50, rng.randint(0, 100)])
        else:
            width = rng.choice([0, 1, 20, 40, 79, 80, 81, 100, 120, 500, 100000, rng.randint(0, 200)])
        ind = rng.choice([0, 1, 2, 4, 8, rng.randint(0, 60)])
        lay = [str(width), str(col), str(ind), rng.choice(['0', '20', '100']), rng.choice('01')]
        ops = [['I', 0, s['id'], 'prog', '1.0'], ['L', 0] + lay]
        if lv == 0 and rng.random() < 0.7:
            ops.append(['H', 0])
        else:
            ops.append(['A', 0, 'prog'] + chain_to(s, lv) + ['--help'])
        yield {'runs': [ops], 'meta': {'lv': lv, 'lay': lay}}


class Off(Exception):
    pass


def align(lines, k, full, width, col, first):
    """lays the lines from the k-th on against the text; returns the index of the line after it"""
    cont = ' ' * (col + 2)
    room = width - col - 2 if width > col + 2 else None
    L = first
    at = {0}
    while True:
        ends = {p + len(L) for p in at if full[p:p + len(L)] == L}
        if not ends:
            raise Off('text', 'line %r does not continue the text at %r' % (L, full[min(at):min(at) + 60]))
        if room is not None and len(L) > room:
            raise Off('width', 'line %r is %d long, %d allowed' % (L, len(L) + col + 2, width))
        k += 1
        nl = lines[k] if k < len(lines) else None
        if len(full) in ends:
            # white space at the end of a text may stand on lines of its own
            for _ in full[len(full.rstrip()):]:
                if k + 1 < len(lines) and not lines[k].strip() and (lines[k] or lines[k + 1] == ''):
                    k += 1
            return k
        at = set()
        for p in ends:
            if p == len(full):
                continue
            if full[p] in ' \n':
                at.add(p + 1)
            if room is not None and len(L) == room and (full[p] == ' ' or L.endswith(' ') or ' ' not in L.strip(' ')):
                at.add(p)
        if not at:
            p = min(ends)
            raise Off('break', 'word broken after %r although not too long: %r' % (L, full[max(0, p - 20):p + 20]))
        if nl is None:
            raise Off('text', 'text ends before %r' % full[min(at):min(at) + 60])
        if nl == '' and len(full) in at:
            return k + 1
        if not nl.startswith(cont):
            raise Off('indent', 'continuation line %r is not indented to %d' % (nl[:120], col + 2))
        L = nl[col + 2:]


def judge(case, ress, ctx):
    ops = case['runs'][0]
    crash = ress[0].crash(len(ops))
    if crash:
        return [('crash', crash)], 'crash', True
    m = case['meta']
    schema = ctx.schemas[ops[0][2]]
    out = ress[0].ops[len(ops) - 1].out
    if ops[-1][0] == 'A':
        out = out.partition('\n')[2]
    width, col, ind, short = (int(x) for x in m['lay'][:4])
    spaces = m['lay'][4] == '1'
    ents = schema['levels'][m['lv']]
    lines = out.split('\n')
    k = 0
    wrapped = same = 0
    try:
        for head, es in helpfmt.sections(ents):
            if lines[k:k + 2] != ['', head + ':']:
                raise Off('heading', 'expected heading %r, found %r' % (head, lines[k:k + 2]))
            k += 2
            for e in es:
                h, _ = helpfmt.hint_text(e, short, spaces)
                name = ' ' * ind + helpfmt.names_text(e) + (' <%s>' % h if h is not None else '')
                full = helpfmt.description(schema, None, e, short, spaces)
                if k >= len(lines):
                    raise Off('text', '%s is missing' % opt_name(e))
                ln = lines[k]
                if not ln.startswith(name):
                    raise Off('names', 'expected %r, found %r' % (name, ln[:200]))
                if ln == name:
                    k += 1
                    ln = lines[k] if k < len(lines) else ''
                    if not ln.startswith(' ' * col + '- '):
                        raise Off('column', 'description of %s starts with %r, expected at column %d' % (opt_name(e), ln[:120], col))
                else:
                    same += 1
                    if not ln.startswith(name.ljust(col) + '- ') or len(name) >= col:
                        raise Off('column', 'description of %s does not start at column %d: %r' % (opt_name(e), col, ln[:160]))
                k0 = k
                try:
                    k = align(lines, k, full, width, col, ln[col + 2:])
                except Off as x:
                    raise Off(x.args[0], '%s, width %d column %d: %s' % (opt_name(e), width, col, x.args[1]))
                wrapped += k - k0 - 1
                ctx.see('lines laid against text', k - k0)
    except Off as x:
        return [(x.args[0], x.args[1])], 'off', True
    room = width - col - 2
    return [], 'room%s/wrapped%s/same%s' % ('-' if room <= 0 else room if room < 5 else '5-20' if room < 20 else '20+', min(wrapped, 9),
                                             min(same, 3)), bool(out)
