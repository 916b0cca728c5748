#!/usr/bin/env python3
"""Entry point of every check:  python3 run.py <PROPERTY> [--thorough] [--replay FILE]   |   python3 run.py --setup

Builds what the check needs from the working tree of the repository (through a content-hashed compiler cache, so a stale
timestamp can never hide a change), then runs the check's explorer."""
import fcntl, os, subprocess, sys, time, glob, json, shlex
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
sys.path.insert(0, os.path.join(VERIF, 'tools'))
from targets import TARGETS, LIB_EXCLUDE, VARIANTS  # noqa

CXX = '/usr/bin/clang++-18'
CCACHE = '/usr/bin/ccache' if os.path.exists('/usr/bin/ccache') else None
BASE = ['-std=gnu++20', '-w', '-mavx2', '-mbmi2', '-mavx', '-msse4.2', '-mbmi',
        '-stdlib=libstdc++', '-DM_ENABLE_SANITY_FIELDS']

def includes():
    inc = ['-I' + REPO + '/include', '-I' + REPO + '/src', '-isystem', '/opt/vp/include', '-isystem', '/usr/include/eigen3',
           '-I' + VERIF + '/harness']
    # the build generates two headers inside the source tree; these are fallbacks should they not be there
    inc += ['-I' + VERIF + '/harness/gen']
    return inc

def env():
    e = dict(os.environ)
    e['CCACHE_DIR'] = os.path.join(BUILD, 'ccache'); e['CCACHE_MAXSIZE'] = '3G'
    e['CCACHE_NOHASHDIR'] = '1'; e['LANG'] = 'C.UTF-8'
    for k in ('LC_ALL', 'LC_CTYPE', 'LC_MESSAGES', 'LD_LIBRARY_PATH', 'CCACHE_DISABLE', 'CPATH'): e.pop(k, None)
    e['CCACHE_TEMPDIR'] = os.path.join(BUILD, 'ccache-tmp')
    return e

def lib_sources():
    """The translation units of the library, as in src/*/CMakeLists.txt (without the WebAssembly backend, which needs V8)."""
    out = []
    for d in ('util', 'catalog', 'lex', 'parse', 'storage', 'io', 'IR', 'backend'):
        out += sorted(glob.glob(f'{REPO}/src/{d}/*.cpp'))
    for f in ('mutable', 'Options', 'version'):
        out.append(f'{REPO}/src/{f}.cpp')
    return [s for s in out if os.path.basename(s) not in LIB_EXCLUDE]

class BuildError(Exception): pass

def compile_one(job):
    src, obj, flags = job
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    cmd = ([CCACHE] if CCACHE else []) + [CXX, '-c'] + BASE + flags + includes() + ['-o', obj, src]
    r = subprocess.run(cmd, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=BUILD)
    if r.returncode:
        raise BuildError(f'{src}:\n{r.stdout[-6000:]}')
    return obj

def plan(tname):
    T = TARGETS[tname]
    var = VARIANTS[T.get('variant', 'o1')]
    jobs = []
    libs = T.get('lib', 'all')
    for s in lib_sources():
        rel = os.path.relpath(s, REPO + '/src')
        base = os.path.basename(s)[:-4]
        if libs != 'all':
            if base not in libs: continue
        elif base in ('HeuristicSearchPlanEnumerator',) and not T.get('heuristic'):
            continue
        flags = list(var['lib'])
        if base in T.get('instrument', ()): # compiled like the harness
            jobs.append((s, os.path.join(BUILD, 'obj', T.get('variant', 'o1'), 'i_' + rel.replace('/', '_') + '.o'), list(var['harness']))); continue
        if base == 'HeuristicSearchPlanEnumerator': flags = ['-O0' if f.startswith('-O') else f for f in flags]
        jobs.append((s, os.path.join(BUILD, 'obj', T.get('variant', 'o1'), rel.replace('/', '_') + '.o'), flags))
    for s in T['src']:
        p = os.path.join(VERIF, 'harness', s)
        fl = list(var['harness']) + T.get('cflags', [])
        if 'mc_rt' in s: fl = list(var.get('rt', fl))
        jobs.append((p, os.path.join(BUILD, 'obj', T.get('variant', 'o1'), 'h_' + tname + '_' + s.replace('/', '_') + '.o'), fl))
    # longest first
    order = ['HeuristicSearchPlanEnumerator', 'Interpreter', 'PlanEnumerator', 'Sema', 'Spn', 'CardinalityEstimator']
    jobs.sort(key=lambda j: (order.index(os.path.basename(j[0])[:-4]) if os.path.basename(j[0])[:-4] in order else 99))
    return T, var, jobs

def build(tnames, quiet=False):
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(os.path.join(BUILD, 'ccache-tmp'), exist_ok=True)
    t0 = time.time()
    with open(os.path.join(BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        alljobs, seen, links = [], set(), []
        for t in tnames:
            T, var, jobs = plan(t)
            for j in jobs:
                if j[1] not in seen: seen.add(j[1]); alljobs.append(j)
            links.append((t, T, var, [j[1] for j in jobs]))
        order = ['HeuristicSearchPlanEnumerator']
        alljobs.sort(key=lambda j: 0 if any(o in j[0] for o in order) else 1)
        with ThreadPoolExecutor(int(os.environ.get('VERIF_JOBS', '8'))) as ex:
            list(ex.map(compile_one, alljobs))
        def link(l):
            t, T, var, objs = l
            exe = os.path.join(BUILD, 'bin', t); os.makedirs(os.path.dirname(exe), exist_ok=True)
            cmd = [CXX, '-fuse-ld=lld', '-o', exe + '.tmp'] + objs + var['link'] + T.get('ldflags', [])
            r = subprocess.run(cmd, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode: raise BuildError('link ' + t + ':\n' + r.stdout[-6000:])
            os.rename(exe + '.tmp', exe)
        with ThreadPoolExecutor(4) as ex:
            list(ex.map(link, links))
    if not quiet: print(f'[build] {", ".join(tnames)}: {len(alljobs)} objects, {time.time() - t0:.1f}s', flush=True)

def main():
    a = sys.argv[1:]
    if not a: print(__doc__); return 2
    try:
        if a[0] == '--setup':
            build(sorted(TARGETS)); return 0
        if a[0] == '--build':
            build(a[1:]); return 0
        pid = a[0]
        tname = pid if pid in TARGETS else None
        if tname is None: print('unknown property', pid); return 2
        build([tname])
    except BuildError as e:
        print('BUILD ERROR', e, flush=True); return 2
    e = dict(os.environ)
    e['VERIF_DIR'] = VERIF
    e.setdefault('VERIF_TIER', 'thorough' if '--thorough' in a else 'quick')
    if '--thorough' in a: e['VERIF_TIER'] = 'thorough'
    e.setdefault('VERIF_MAX_S', '14000' if e['VERIF_TIER'] == 'thorough' else '420')
    e['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=1:detect_stack_use_after_return=0:allocator_may_return_null=1'
    e['UBSAN_OPTIONS'] = 'halt_on_error=1:abort_on_error=1'
    os.makedirs(os.path.join(BUILD, 'out', pid), exist_ok=True)
    return subprocess.run([os.path.join(BUILD, 'bin', tname)] + a[1:], env=e, cwd=os.path.join(BUILD, 'out', pid)).returncode

if __name__ == '__main__':
    sys.exit(main())
