"""Runs a check: tables -> driver -> scripts -> monitors, on all cores, and turns the outcome into a verdict.

A check is a module with
  TECH, RULE            texts
  schemas(rng, tier)    -> list of option tables
  cases(rng, schemas, n)-> iterable of cases {'runs': [[op, ...], ...], 'meta': {...}}
  judge(case, ress, ctx)-> (problems, signature, nontrivial)
and optionally followups(case, ress, ctx) -> further cases, VARIANTS, BUDGET, extra(...).
problems are (key, text): the key identifies the kind of deviation and is matched against known findings.
"""
import hashlib
import importlib
import json
import concurrent.futures as cf
import multiprocessing as mp
import os
import random
import resource
import shutil
import sys
import tempfile
import time
import traceback
from collections import Counter

from . import build as B
from . import proto
from .gen import huge_range

VERIF = B.VERIF
EVID = os.path.join(VERIF, 'evidence')
WORKERS = 8


class Inconclusive(Exception):
    pass


class Ctx:
    """what a judge may consult"""

    def __init__(self, schemas, tier):
        self.schemas = {s['id']: s for s in schemas}
        self.tier = tier
        self.observed = Counter()   # measured events, by kind

    def see(self, what, n=1):
        self.observed[what] += n


def load(cid):
    return importlib.import_module('vt.checks.' + cid.lower())


def run_scripts(exe, work, scripts, limit, chunk):
    """scripts: list of op lists; returns list of Res (same order) and coverage"""
    path = os.path.join(work, 'script-%d.txt' % os.getpid())
    with open(path, 'w') as f:
        for i, ops in enumerate(scripts):
            f.write(proto.case_text('c%d' % i, ops))
    rc, out, err = proto.run_driver(exe, path, limit, chunk)
    ress, cov = proto.parse_output(out)
    if len(ress) < len(scripts) and sum(1 for r in ress if r.sig in (14, 25, 27) or r.code == 93) >= 3:
        ress += [None] * (len(scripts) - len(ress))     # the driver gave up after three scripts without end
    if rc or len(ress) != len(scripts):
        raise Inconclusive('driver ended with %d after %d of %d scripts: %s' % (rc, len(ress), len(scripts), err[-500:]))
    for r, ops in zip(ress, scripts):
        if r is None:
            continue
        c = r.crash(len(ops))
        if c and c.startswith('HARNESS'):
            raise Inconclusive(c)
    return ress, cov


def isolated(exe, work, case, limit=10):
    """every script of the case in a process of its own; a hang is confirmed with three times the limit"""
    ress = [run_scripts(exe, work, [ops], limit, 1)[0][0] for ops in case['runs']]
    if any(r.sig in (14, 27) for r in ress) and limit < 30:
        return isolated(exe, work, case, 30)
    return ress


def too_big(case):
    """names an integer range whose expansion would only exhaust memory"""
    return any(op[0] in 'AEC' and any(isinstance(x, str) and huge_range(x) for x in op[1:]) for ops in case['runs'] for op in ops)


def case_hash(case):
    return hashlib.sha1(json.dumps(case['runs'], sort_keys=True).encode('latin-1', 'replace')).digest()[:8]


def evaluate(mod, case, ress, ctx):
    try:
        return mod.judge(case, ress, ctx)
    except Exception:
        # the record does not have the shape the script must produce unless the process died
        for r, ops in zip(ress, case['runs']):
            c = r.crash(len(ops))
            if c:
                return [('crash', c)], 'crash', True
        # every script has a fixed shape, so a record that cannot be read is not what the interface promises
        return [('unreadable', 'the record cannot be read: ' + traceback.format_exc()[-600:])], 'unreadable', True


def worker(args):
    cid, schemas, exes, work, seed, wid, budget, tier, deadline = args
    # a runaway in here must end as an error, not take the machine's memory; the driver gets its own limits
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, resource.getrlimit(resource.RLIMIT_AS)[1]))
    try:
        return _worker(cid, schemas, exes, work, seed, wid, budget, tier, deadline)
    except Inconclusive as e:
        return {'inconclusive': str(e)}
    except Exception:
        return {'inconclusive': traceback.format_exc()}


def _worker(cid, schemas, exes, work, seed, wid, budget, tier, deadline):
    mod = load(cid)
    rng = random.Random('%s/%s/%s' % (seed, cid, wid))
    ctx = Ctx(schemas, tier)
    st = {'evaluations': 0, 'executions': 0, 'hashes': set(), 'sigs': Counter(), 'violations': [], 'samples': [], 'unconfirmed': 0,
          'cov': {}, 'observed': None, 'cut': False, 'calls': 0, 'suspects': 0}
    batch = getattr(mod, 'BATCH', 250)
    left = budget
    pending = []
    stop = os.path.join(work, 'stop')
    kf = known(cid)
    while left > 0 or pending:
        if time.time() > deadline:
            st['cut'] = True
            break
        if os.path.exists(stop) and time.time() - os.path.getmtime(stop) > 15:
            break       # a violation has been confirmed: some more time for other kinds, then the verdict
        if pending:
            cases, pending = pending[:batch], pending[batch:]
        else:
            n = min(batch, left)
            cases = list(mod.cases(rng, schemas, n, ctx))
            left -= n
        if not getattr(mod, 'NO_RANGES', False):
            cases = [c for c in cases if not too_big(c)]
        if not cases:
            continue
        for variant in sorted({c.get('variant', 'asan') for c in cases}):
            cs = [c for c in cases if c.get('variant', 'asan') == variant]
            exe = exes[variant]
            scripts = [r for c in cs for r in c['runs']]
            ress, cov = run_scripts(exe, work, scripts, 10, getattr(mod, 'CHUNK', 100))
            st['executions'] += len(scripts)
            st['calls'] += sum(len(s) for s in scripts)
            if cov:
                old = st['cov'].get(variant)
                st['cov'][variant] = cov[1] if old is None else ''.join(
                    '1' if a == '1' or b == '1' else '0' for a, b in zip(old, cov[1]))
            k = 0
            for c in cs:
                rs = ress[k:k + len(c['runs'])]
                k += len(c['runs'])
                if None in rs:
                    continue
                problems, sig, nontrivial = evaluate(mod, c, rs, ctx)
                st['evaluations'] += 1
                if problems:
                    st['suspects'] += 1
                    if len(st['violations']) < 40 and st['suspects'] < 400:
                        # confirmed only when it also happens in fresh processes
                        rs = isolated(exe, work, c)
                        problems, sig, nontrivial = evaluate(mod, c, rs, ctx)
                        if problems:
                            st['violations'].append((problems, c))
                            if not os.path.exists(stop) and not all(any(matches(f, k, x, c) for f in kf) for k, x in problems):
                                open(stop, 'w').close()
                        else:
                            st['unconfirmed'] += 1
                if nontrivial:
                    h = case_hash(c)
                    if h not in st['hashes']:
                        st['hashes'].add(h)
                        st['sigs'][sig] += 1
                        if len(st['samples']) < 3 and rng.random() < 0.05:
                            st['samples'].append({'calls': c['runs'][-1][:12], 'observed': sig})
                if hasattr(mod, 'followups') and not problems:
                    pending += mod.followups(c, rs, ctx)
    st['observed'] = ctx.observed
    return st


def matches(finding, key, text, case):
    if finding.get('key') != key:
        return False
    m = finding.get('match')
    return m is None or m in text or m in json.dumps(case['runs'])


def known(cid):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return [f for f in json.load(open(p)).get('findings', []) if f['property'] == cid]


def relevant_schemas(schemas, case):
    ids = {op[2] for run in case['runs'] for op in run if op[0] == 'I'}
    return [s for s in schemas if s['id'] in ids]


def save_replay(cid, schemas, case, problems):
    d = os.path.join(EVID, 'replay')
    os.makedirs(d, exist_ok=True)
    doc = {'property': cid, 'problems': problems, 'schemas': relevant_schemas(schemas, case), 'case': case}
    name = '%s-%s.json' % (cid, case_hash(case).hex())
    p = os.path.join(d, name)
    with open(p, 'w') as f:
        json.dump(doc, f, indent=1)
    return os.path.relpath(p, VERIF)


def merge_cov(a, b):
    if a is None or b is None:
        return a or b
    return ''.join('1' if x == '1' or y == '1' else '0' for x, y in zip(a, b))


def run_check(cid):
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    mod = load(cid)
    os.makedirs(EVID, exist_ok=True)
    os.makedirs(B.BUILD, exist_ok=True)
    work = tempfile.mkdtemp(prefix='%s-' % cid, dir=B.BUILD)
    try:
        return _run_check(cid, mod, tier, seed, work, t0)
    except B.BuildError as e:
        print('ERROR: the tree does not build: %s' % e)
        return 3
    finally:
        shutil.rmtree(work, ignore_errors=True)


def _run_check(cid, mod, tier, seed, work, t0):
    rng = random.Random('%s/%s/schemas' % (seed, cid))
    budget = mod.BUDGET[tier]
    limit_s = 420 if tier == 'quick' else 780
    scale = float(os.environ.get('VT_SCALE', '1'))
    budget = max(WORKERS, int(budget * scale))
    agg = None
    rounds = mod.ROUNDS.get(tier, 1) if hasattr(mod, 'ROUNDS') else (1 if tier == 'quick' else 6)
    nsch = 0
    viols = []
    incon = []
    for rd in range(rounds):
        if time.time() - t0 > limit_s:
            break
        schemas = mod.schemas(rng, tier)
        nsch += len(schemas)
        exes = {v: B.build(schemas, v, work) for v in getattr(mod, 'VARIANTS', ['asan'])}
        per = max(1, budget // WORKERS // rounds)
        jobs = [(cid, schemas, exes, work, seed, '%d.%d' % (rd, w), per, tier, t0 + limit_s) for w in range(WORKERS)]
        outs = []
        with cf.ProcessPoolExecutor(WORKERS, mp_context=mp.get_context('fork')) as pool:
            for f in [pool.submit(worker, j) for j in jobs]:
                try:
                    outs.append(f.result())
                except cf.process.BrokenProcessPool as e:
                    outs.append({'inconclusive': 'a worker process was ended: %s' % e})
        for o in outs:
            if 'inconclusive' in o:
                incon.append(o['inconclusive'])
                continue
            for problems, c in o['violations']:
                viols.append((problems, c, schemas))
            if agg is None:
                agg = o
            else:
                for k in ('evaluations', 'executions', 'calls', 'unconfirmed', 'suspects'):
                    agg[k] += o[k]
                agg['hashes'] |= o['hashes']
                agg['sigs'] += o['sigs']
                agg['observed'] += o['observed']
                agg['samples'] += o['samples']
                agg['cut'] |= o['cut']
                for v, m in o['cov'].items():
                    agg['cov'][v] = merge_cov(agg['cov'].get(v), m)
        if viols:
            break
    if hasattr(mod, 'extra'):
        # work of another shape (fuzzing campaigns); returns (violations as texts with files, evidence dict)
        ex_viol, ex_ev = mod.extra(tier, seed, work, t0 + limit_s)
    else:
        ex_viol, ex_ev = [], {}

    # verdict
    kf = known(cid)
    seen_known, fresh = {}, {}
    for problems, c, sch in viols:
        for key, text in problems:
            f = next((f for f in kf if matches(f, key, text, c)), None)
            if f:
                seen_known[f['what']] = True
            else:
                fresh.setdefault(key, []).append((text, c, sch, problems))
    for f in kf:
        print('KNOWN-FINDING: property=%s %s' % (cid, f['what']))
    nviol = 0
    for key, items in fresh.items():
        items.sort(key=lambda it: sum(len(op) + sum(len(str(x)) for x in op) for r in it[1]['runs'] for op in r))
        text, c, sch, problems = items[0]
        p = save_replay(cid, sch, c, problems)
        nviol += 1
        print('  %s: %s (%d cases)' % (key, text[:600], len(items)))
        print('VIOLATION property=%s replay=%s' % (cid, p))
    for text, path in ex_viol:
        nviol += 1
        print('  %s' % text[:600])
        print('VIOLATION property=%s replay=%s' % (cid, path))

    if agg is not None:
        cov = {}
        for v, m in agg['cov'].items():
            cov[v] = {'edges_hit': m.count('1'), 'edges': len(m)}
        distinct = len(agg['hashes'])
        samples = agg['samples'][:4] or [{'note': 'see behaviours'}]
        coverage = {'evaluations': agg['evaluations'], 'distinct_nontrivial': distinct, 'rule': mod.RULE,
                    'samples': samples, 'option_tables': nsch, 'processes_or_scripts_run': agg['executions'],
                    'api_calls_made': agg['calls'], 'distinct_behaviours': len(agg['sigs']),
                    'behaviours': dict(agg['sigs'].most_common(25)), 'monitor_events': dict(agg['observed']),
                    'edge_coverage_of_library': cov, 'deviations_not_reproduced_in_isolation': agg['unconfirmed'],
                    'stopped_by_time': agg['cut']}
        coverage.update(ex_ev)
        ev = {'property': cid, 'tier': tier, 'seed': seed, 'level': getattr(mod, 'LEVEL', 'exploration'), 'coverage': coverage,
              'assumptions': getattr(mod, 'ASSUME', []), 'wall_s': round(time.time() - t0, 1), 'violations': nviol}
        tmp = os.path.join(EVID, '.%s.tmp' % cid)
        with open(tmp, 'w') as f:
            json.dump(ev, f, indent=1)
        os.replace(tmp, os.path.join(EVID, cid + '.json'))
    if nviol:
        return 1
    if incon:
        print('ERROR: inconclusive: %s' % incon[0][-3000:])
        return 3
    if agg is None or agg['evaluations'] == 0 or len(agg['hashes']) < getattr(mod, 'MIN_DISTINCT', 50):
        print('ERROR: nothing observed')
        return 3
    print('%s held on %d cases (%d distinct, %d behaviours, %d tables) in %.0f s' % (
        cid, agg['evaluations'], len(agg['hashes']), len(agg['sigs']), nsch, time.time() - t0))
    return 0


def replay(path):
    doc = json.load(open(path))
    cid = doc['property']
    mod = load(cid)
    os.makedirs(B.BUILD, exist_ok=True)
    work = tempfile.mkdtemp(prefix='replay-', dir=B.BUILD)
    try:
        v = doc['case'].get('variant', 'asan')
        exe = B.build(doc['schemas'], v, work)
        case = doc['case']
        ress = isolated(exe, work, case)
        problems, sig, _ = evaluate(mod, case, ress, Ctx(doc['schemas'], 'quick'))
        for r, ops in zip(ress, case['runs']):
            for i, op in enumerate(ops):
                rec = r.ops.get(i)
                print(i, op, '->', rec.fields if rec else None, rec.events if rec else '')
                if rec and rec.out:
                    print('   out:', repr(rec.out[:1500]))
                if rec and rec.err:
                    print('   err:', repr(rec.err[:1500]))
            if r.tail_err:
                print('   tail:', r.tail_err[:3000])
        for k, t in problems:
            print('%s: %s' % (k, t))
        if problems:
            print('VIOLATION property=%s replay=%s' % (cid, path))
            return 1
        print('held')
        return 0
    finally:
        shutil.rmtree(work, ignore_errors=True)
