"""Build of the library from /repo's working tree, with sanitizers, plus driver and tables."""
import hashlib
import os
import shutil
import subprocess
from concurrent.futures import ThreadPoolExecutor

from . import schema as S

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VT_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
CC = 'clang'
WRAP = ['-Wl,--wrap=' + f for f in ('malloc', 'calloc', 'realloc', 'strdup', 'strndup', 'exit')]
VARIANTS = {
    # everything the properties need: addresses, undefined behaviour, edge coverage
    'asan': {'cc': CC, 'lib': ['-O1', '-g', '-fsanitize=address,undefined', '-fno-sanitize-recover=all',
                               '-fno-omit-frame-pointer', '-fsanitize-coverage=trace-pc-guard', '-DARGUS_REGEX'],
             'tab': ['-O0', '-g', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-DARGUS_REGEX'],
             'link': ['-fsanitize=address,undefined', '-lpcre2-8']},
    # reads of uninitialised memory (pcre2 is not instrumented, hence no regular expressions)
    'msan': {'cc': CC, 'lib': ['-O1', '-g', '-fsanitize=memory', '-fsanitize-memory-track-origins',
                               '-fno-omit-frame-pointer', '-DVT_MSAN'],
             'tab': ['-O0', '-g', '-fsanitize=memory', '-DVT_MSAN'],
             'link': ['-fsanitize=memory']},
    # as shipped: another compiler, full optimisation, no assertions, no sanitizer
    'fast': {'cc': 'gcc', 'lib': ['-O3', '-DNDEBUG', '-D_FORTIFY_SOURCE=2', '-fPIC', '-DARGUS_REGEX', '-DVT_PLAIN'],
             'tab': ['-O2', '-DNDEBUG', '-DARGUS_REGEX', '-DVT_PLAIN'],
             'link': ['-lpcre2-8']},
    # without regular expressions
    'noregex': {'cc': CC, 'lib': ['-O2', '-DVT_PLAIN'], 'tab': ['-O1', '-DVT_PLAIN'], 'link': []},
}


class BuildError(Exception):
    pass


def sources():
    out = []
    for d, _, fs in os.walk(os.path.join(REPO, 'source')):
        out += [os.path.join(d, f) for f in fs if f.endswith('.c')]
    return sorted(out)


def tree_hash(extra=''):
    h = hashlib.sha256(extra.encode())
    files = sources()
    for d, _, fs in os.walk(os.path.join(REPO, 'includes')):
        files += sorted(os.path.join(d, f) for f in fs)
    for f in ('driver.c', 'driver.h', 'build.py', 'schema.py', 'fuzz.c'):
        p = os.path.join(HERE, f)
        if os.path.exists(p):
            files.append(p)
    for f in files:
        h.update(f.encode())
        with open(f, 'rb') as fh:
            h.update(fh.read())
    return h.hexdigest()[:16]


def run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        raise BuildError('%s\n%s' % (' '.join(cmd), p.stdout.decode('latin-1')[-4000:]))


def incs():
    return ['-I' + os.path.join(REPO, 'includes'), '-I' + HERE]


def lib_objects(variant, pool):
    """objects of the library, cached by the contents of the tree"""
    v = VARIANTS[variant]
    d = os.path.join(BUILD, 'lib-%s-%s' % (variant, tree_hash()))
    done = os.path.join(d, '.done')
    srcs = sources()
    objs = [os.path.join(d, 'o%03d.o' % i) for i in range(len(srcs))]
    drv = os.path.join(d, 'driver.o')
    if not os.path.exists(done):
        os.makedirs(d, exist_ok=True)
        for old in os.listdir(BUILD):
            p = os.path.join(BUILD, old)
            if old.startswith('lib-%s-' % variant) and p != d:
                shutil.rmtree(p, ignore_errors=True)
        jobs = [[v['cc'], '-c', '-w', '-std=gnu11'] + v['lib'] + incs() + [s, '-o', o] for s, o in zip(srcs, objs)]
        jobs.append([v['cc'], '-c', '-w', '-std=gnu11'] + [f for f in v['lib'] if 'coverage' not in f] + incs() +
                    [os.path.join(HERE, 'driver.c'), '-o', drv])
        list(pool.map(run, jobs))
        open(done, 'w').close()
    return objs + [drv]


def build(schemas, variant='asan', work=None):
    """returns the path of a driver binary holding these schemas"""
    v = VARIANTS[variant]
    os.makedirs(BUILD, exist_ok=True)
    with ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as pool:
        objs = lib_objects(variant, pool)
        groups = {}
        for s in schemas:
            groups.setdefault(bool(s.get('debug')), []).append(s)
        jobs, tobjs = [], []
        n = 0
        for dbg, ss in groups.items():
            k = max(1, min(16, len(ss) // 4 + 1))
            for j in range(k):
                part = ss[j::k]
                if not part:
                    continue
                c = os.path.join(work, '%s-t%d.c' % (variant, n))
                with open(c, 'w', encoding='latin-1') as f:
                    f.write(S.emit_all(part))
                o = c[:-2] + '.o'
                jobs.append([v['cc'], '-c', '-w', '-std=gnu11'] + v['tab'] + (['-DARGUS_DEBUG'] if dbg else []) +
                            incs() + [c, '-o', o])
                tobjs.append(o)
                n += 1
        c = os.path.join(work, variant + '-reg.c')
        with open(c, 'w') as f:
            f.write(S.registry(schemas))
        jobs.append([v['cc'], '-c', '-w', '-std=gnu11'] + v['tab'] + incs() + [c, '-o', c[:-2] + '.o'])
        tobjs.append(c[:-2] + '.o')
        list(pool.map(run, jobs))
    exe = os.path.join(work, 'drv-' + variant)
    run([v['cc']] + objs + tobjs + WRAP + ['-o', exe, '-lm'] + v['link'])
    return exe
