"""C06: scalar values are converted exactly or rejected."""
import struct

from .. import gen
from ..common import script
from ..sim import Sim, sig_of

RULE = ('texts of every kind (boundary and random 64-bit integers, decimal floats of up to 80 digits and near rounding midpoints, '
        'boolean words in random case, and malformed texts) delivered to int, float, bool and flag options as option, positional '
        'or variable; accepted values compared bit by bit; non-trivial: a text was converted or refused')
BUDGET = {'quick': 500000, 'thorough': 7500000}


def schemas(rng, tier):
    out = []
    for i in range(16):
        ents = [{'k': 'help'}]
        for t, s, l in (('int', 'i', 'int'), ('float', 'f', 'float'), ('bool', 'b', 'bool'), ('flag', 'g', 'flag')):
            e = {'k': 'opt', 't': t, 's': s, 'l': l, 'help': 'x', 'env': 'E' + l.upper()}
            if t != 'flag' and rng.random() < 0.5:
                e['default'] = gen.default(rng, t)
            ents.append(e)
        rng.shuffle(ents)
        ents.append({'k': 'pos', 't': ['int', 'float', 'bool', 'vint', 'vfloat'][i % 5], 'name': 'p', 'help': 'y', 'optional': True})
        out.append({'id': 's%d' % i, 'levels': [ents], 'debug': False})
    return out


def midpoint(rng):
    """a decimal text exactly on, or a hair beside, the midpoint of two doubles"""
    from decimal import Decimal, getcontext
    getcontext().prec = 1200
    bits = rng.getrandbits(52) | (rng.randint(1023 - 60, 1023 + 60) << 52)
    a = struct.unpack('<d', struct.pack('<Q', bits))[0]
    b = struct.unpack('<d', struct.pack('<Q', bits + 1))[0]
    m = (Decimal(a) + Decimal(b)) / 2
    t = format(m, 'f')
    r = rng.random()
    if r < 0.35 and '.' in t:
        t += '0' * rng.randint(0, 5) + '1'
    elif r < 0.6 and '.' in t and t[-1] != '0':
        t = t[:-1] + str(int(t[-1]) - 1) + '9' * rng.randint(1, 5)
    return t


def text(rng, t):
    if t in ('int', 'vint'):
        r = rng.random()
        if r < 0.15:
            return rng.choice(gen.BAD_INT)
        if r < 0.3:
            b = rng.choice([2**63, 2**31, 2**32, 2**53, 10**18, 2**62, 2**16, 2**8])
            return str(rng.choice([1, -1]) * (b + rng.randint(-2, 2)))
        if r < 0.4:
            return rng.choice(['', '-']) + ''.join(rng.choice('0123456789') for _ in range(rng.randint(1, 24)))
        if r < 0.45:
            x = gen.rand_int_text(rng)
            i = rng.randint(1, len(x))
            return x[:i] + rng.choice(['x', '.', ' ', 'e', '-', ',', '_', '\xa0']) + x[i:]
        return gen.rand_int_text(rng)
    if t in ('float', 'vfloat'):
        r = rng.random()
        if r < 0.15:
            return rng.choice(gen.BAD_FLOAT)
        if r < 0.35:
            return midpoint(rng)
        if r < 0.45:
            return repr(struct.unpack('<d', struct.pack('<Q', rng.getrandbits(52) | (rng.randint(1, 2046) << 52) | (rng.getrandbits(1) << 63)))[0])
        if r < 0.5:
            x = gen.rand_float_text(rng)
            i = rng.randint(1, len(x))
            return x[:i] + rng.choice(['x', ' ', ',', '_', 'z']) + x[i:]
        return gen.rand_float_text(rng)
    r = rng.random()
    if r < 0.4:
        return rng.choice(gen.BAD_BOOL)
    if r < 0.5:
        x = rng.choice(gen.GOOD_BOOL)
        i = rng.randint(0, len(x))
        return x[:i] + rng.choice('xe01 ') + x[i:] if rng.random() < 0.5 else x[:i] + x[i + 1:]
    return gen.rand_bool_text(rng)


def ok_text(t, x):
    import re
    if '\0' in x:
        return False
    if t == 'float' or t == 'vfloat':
        y = x.lower().lstrip('+-')
        if re.match(r'0x|inf|nan', y):
            return False
        try:
            v = abs(float(x))
            if v != 0 and v < 2.3e-308:
                return False    # subnormal results are not judged
            if v == 0 and re.search('[1-9]', re.split('[eE]', x)[0]):
                return False
        except ValueError:
            pass
    return not (x[:1] in ' \t\n\r\v\f+' and x[:1] != '')


def cases(rng, schemas, n, ctx):
    while n > 0:
        s = rng.choice(schemas)
        args, env = [], {}
        for _ in range(rng.choice([1, 1, 2])):
            e = rng.choice([e for e in s['levels'][0] if e['k'] != 'help'])
            t = e['t']
            if t == 'flag':
                r = rng.random()
                if r < 0.5:
                    args += rng.choice([['-g'], ['--flag'], ['-gg']])
                else:
                    x = text(rng, 'bool')
                    if not ok_text('bool', x):
                        continue
                    env['EFLAG'] = x
                continue
            x = text(rng, t)
            if not ok_text(t, x):
                continue
            if e['k'] == 'pos':
                args += ['--', x]
                break
            if rng.random() < 0.2:
                env[e['env']] = x
            else:
                args += gen.spell(rng, e, x)
        if not args and not env:
            continue
        n -= 1
        ops, _ = script(s, args, env, what='GT' if False else 'G')
        yield {'runs': [ops]}


def judge(case, ress, ctx):
    s = Sim(case, ress, ctx, ('status', 'value')).go()
    r = s.results[0] if s.results else None
    if r is not None:
        for st in r.state[0]:
            if st.provided:
                ctx.see('converted ' + st.e['t'])
        if r.kind == 'err':
            ctx.see('refused')
    sig = sig_of(r)
    if r is not None:
        sig += '/' + '+'.join(sorted(st.e['t'] for st in r.state[0] if st.provided))
    return s.bad, sig, True
