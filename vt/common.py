"""Shared shape of the model-based checks."""
from . import gen
from .model import Parse
from .sim import Sim, observe, sig_of


def make_schemas(rng, n, prefix='s', **knobs):
    return [gen.Gen(rng, **knobs).schema('%s%d' % (prefix, i)) for i in range(n)]


def script(schema, args, env=None, prefix=None, what='GSK', free=True, ver='1.0', prog='prog', pre=(), extra=(), init=True, c=0):
    """init, environment, parse, read everything back, free"""
    ops = []
    if init:
        ops.append(['I', c, schema['id'], prog, ver])
    if prefix is not None:
        ops.append(['C', c, 'prefix', prefix])
    for k, v in (env or {}).items():
        ops.append(['E', k, v])
    ops += list(pre)
    ops.append(['A', c, prog] + list(args))
    r = Parse(schema, prefix).run(args, env or {})
    if r.kind == 'ok' and what:
        ops += observe(schema, r, c, what)
    ops += list(extra)
    if free:
        ops.append(['F', c])
    return ops, r


def judge_with(facets, case, ress, ctx):
    s = Sim(case, ress, ctx, facets).go()
    return s


def std_judge(facets, trivial=None):
    def judge(case, ress, ctx):
        s = Sim(case, ress, ctx, facets).go()
        sig = '+'.join(sig_of(r) for r in s.results) or 'none'
        return s.bad, sig, bool(s.results)
    return judge
