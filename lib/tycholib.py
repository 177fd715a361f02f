"""Common machinery of the checks: builds, runs, verdicts, evidence."""
import concurrent.futures
import glob
import hashlib
import json
import os
import random
import re
import shutil
import signal
from struct import error as struct_error
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('TYCHO_REPO', '/repo')
SRC = os.path.join(REPO, 'src')
UTIL = os.path.join(REPO, 'util')
BUILD = os.path.join(VERIF, '.build')
WORK = os.path.join(VERIF, '.work')
REPLAYS = os.path.join(VERIF, 'replays')
HARN = os.path.join(VERIF, 'harness')
FINDINGS = os.path.join(VERIF, 'known-findings.json')
NCPU = os.cpu_count() or 8

MPI_ENV = {
    'PATH': '/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin',
    'LANG': 'C.UTF-8', 'OMPI_CXX': 'g++', 'OMPI_CC': 'gcc',
    'OMPI_ALLOW_RUN_AS_ROOT': '1', 'OMPI_ALLOW_RUN_AS_ROOT_CONFIRM': '1',
    'OMPI_MCA_btl': 'self,vader', 'OMPI_MCA_pml': 'ob1', 'OMPI_MCA_plm': 'isolated',
    'OMPI_MCA_btl_vader_single_copy_mechanism': 'none',
    'OMPI_MCA_rmaps_base_oversubscribe': '1', 'OMPI_MCA_hwloc_base_binding_policy': 'none',
    'OMPI_MCA_mpi_yield_when_idle': '1', 'OMP_WAIT_POLICY': 'passive',
    'OPENBLAS_NUM_THREADS': '1', 'TMPDIR': '/tmp', 'HOME': '/root',
}


class HarnessError(Exception):
    """something of ours (or the compiler) failed: neither held nor violated"""


# ------------------------------------------------------------------ build
SWEEP_FLAGS = ('-Wno-cast-function-type -g -std=c++11 -fopenmp -include cstdint '
               '-DASSERT_ON=1 -DUSE_PETSC=1 -I/usr/lib/petsc/include').split()
SWEEP_LIBS = '-L/usr/lib/petsc/lib -lpetsc_real'.split()
UTIL_FLAGS = '-std=c++11 -O1 -include cstdint'.split()
VARIANTS = {
    'plain': ['-O3'],
    'debug': ['-O1'],
    'asan': ['-O1', '-fno-omit-frame-pointer', '-fsanitize=address,undefined',
             '-fno-sanitize-recover=all', '-D_GLIBCXX_ASSERTIONS'],
    'tsan': ['-O1', '-fno-omit-frame-pointer', '-fsanitize=thread'],
    # other settings of make.inc
    'noassert': ['-O3', '-UASSERT_ON', '-DASSERT_ON=0'],
    'nopetsc': ['-O2', '-UUSE_PETSC', '-DUSE_PETSC=0', '-UASSERT_ON', '-DASSERT_ON=0'],
    'O0': ['-O0'],
    'clang': ['-O2', '-DNDEBUG', '-fno-openmp', '-I' + HARN + '/clang'],    # no OpenMP runtime for clang here: one thread
}


def _flags(variant):
    f = SWEEP_FLAGS + VARIANTS[variant]
    return [x for x in f if variant != 'nopetsc' or 'petsc' not in x]


def _cxx(variant):
    return {'OMPI_CXX': 'clang++'} if variant == 'clang' else None


def _files(pats):
    out = []
    for p in pats:
        out += sorted(f for f in glob.glob(p, recursive=True) if os.path.isfile(f))
    return out


def tree_hash(extra=''):
    h = hashlib.sha256(extra.encode())
    for f in _files([SRC + '/*.cc', SRC + '/*.hh', UTIL + '/*.cc', UTIL + '/*.hh', HARN + '/**']):
        h.update(f.encode())
        h.update(open(f, 'rb').read())
    return h.hexdigest()[:16]


_build_lock = threading.Lock()


def _cc(args, env=None):
    e = dict(MPI_ENV)
    e.update(env or {})
    r = subprocess.run(args, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise HarnessError('build failed: %s\n%s' % (' '.join(args), r.stdout[-3000:]))


def _prune(keep):
    """disk is limited: keep the builds of the two most recent trees"""
    if not os.path.isdir(BUILD):
        return
    ds = [os.path.join(BUILD, d) for d in os.listdir(BUILD)]
    ds = sorted([d for d in ds if d != keep], key=os.path.getmtime, reverse=True)
    for d in ds[2:]:
        shutil.rmtree(d, ignore_errors=True)


def builddir():
    d = os.path.join(BUILD, tree_hash())
    if not os.path.isdir(d):
        os.makedirs(d, exist_ok=True)
        _prune(d)
    return d


def objects(variant):
    """compile every src/*.cc for a variant; -> {stem: object}"""
    d = os.path.join(builddir(), 'obj-' + variant)
    os.makedirs(d, exist_ok=True)
    flags = _flags(variant)
    jobs, objs = [], {}
    for s in _files([SRC + '/*.cc']):
        o = os.path.join(d, os.path.basename(s)[:-3] + '.o')
        objs[os.path.basename(s)[:-3]] = o
        if not os.path.exists(o):
            jobs.append((['mpicxx'] + flags + ['-I' + SRC, '-c', s, '-o', o + '.tmp'], o))

    def one(j):
        _cc(j[0], _cxx(variant))
        os.rename(j[0][-1], j[1])
    with concurrent.futures.ThreadPoolExecutor(NCPU) as ex:
        list(ex.map(one, jobs))
    return objs


def build_sweep(variant='plain', extra_src=(), name=None, extra_libs=(), defs=(), main=True, link=()):
    """sweep.x (main=True) or a harness linked with everything but Main.cc"""
    with _build_lock:
        objs = objects(variant)
        name = name or 'sweep'
        out = os.path.join(builddir(), '%s-%s.x' % (name, variant))
        if os.path.exists(out):
            return out
        flags = _flags(variant)
        os_ = [o for k, o in objs.items() if main or k != 'Main']
        hs = []
        todo = []
        for s in extra_src:
            o = os.path.join(builddir(), 'obj-' + variant, name + '-' + os.path.basename(s) + '.o')
            fl = [f for f in flags if not (s.endswith('.c') and f in ('-std=c++11',))]
            if os.path.basename(s).startswith('shim_'):
                fl = [f for f in fl if not f.startswith('-fsanitize')]
            todo.append(['mpicxx'] + fl + list(defs) + ['-I' + SRC, '-I' + HARN, '-c', s, '-o', o])
            hs.append(o)
        with concurrent.futures.ThreadPoolExecutor(NCPU) as ex:
            list(ex.map(_cc, todo))
        libs = list(link) + list(extra_libs) + ([] if variant == 'nopetsc' else SWEEP_LIBS) + (['-lgomp'] if variant == 'clang' else [])
        _cc(['mpicxx'] + flags + hs + os_ + ['-o', out + '.tmp'] + libs, _cxx(variant))
        os.rename(out + '.tmp', out)
        return out


def build_util(tool, variant='plain'):
    with _build_lock:
        out = os.path.join(builddir(), '%s-%s.x' % (tool, variant))
        if os.path.exists(out):
            return out
        # the same objects as /repo/util/Makefile puts together
        srcs = [os.path.join(UTIL, tool + '.cc')]
        defs = []
        libs = []
        s = lambda *n: [os.path.join(SRC, x + '.cc') for x in n]
        if tool in ('PartitionColumns', 'PartitionMetis'):
            srcs += s('SerialMesh', 'ParallelMesh')
            defs = ['-DPARALLEL_MESH_READ_SERIAL_ONLY']
            if tool == 'PartitionMetis':
                libs = ['-lmetis']
        elif tool == 'ParallelMeshInfo':
            srcs += s('ParallelMesh', 'SerialMesh', 'Comm', 'Assert')
        else:
            srcs += s('SerialMesh')
        fl = list(UTIL_FLAGS)
        if variant != 'plain':
            fl = [f for f in fl if f != '-O1'] + VARIANTS[variant] + ['-g']
        _cc(['mpicxx'] + fl + defs + ['-I' + SRC] + srcs + ['-o', out + '.tmp'] + libs, _cxx(variant))
        os.rename(out + '.tmp', out)
        return out


def build_converter(tool, variant='plain'):
    """a mesh converter, with the stand-in for MOAB; None if it does not compile with it"""
    srcs = [os.path.join(UTIL, tool + '.cc')] + [os.path.join(SRC, x + '.cc') for x in ('SerialMesh', 'ParallelMesh')]
    try:
        return build_serial(tool, srcs, ['-DPARALLEL_MESH_READ_SERIAL_ONLY', '-I' + HARN + '/moab', '-Wno-format'], variant=variant)
    except Exception as e:
        print(e)
        return None


def build_serial(name, srcs, defs=(), libs=(), variant='plain'):
    """a program of our own from serial sources only (no MPI start-up cost)"""
    with _build_lock:
        out = os.path.join(builddir(), '%s-%s.x' % (name, variant))
        if not os.path.exists(out):
            fl = list(UTIL_FLAGS)
            if variant != 'plain':
                fl = [f for f in fl if f != '-O1'] + VARIANTS[variant] + ['-g']
            _cc(['mpicxx'] + fl + list(defs) + ['-I' + SRC, '-I' + HARN] + list(srcs) + ['-o', out + '.tmp'] + list(libs))
            os.rename(out + '.tmp', out)
        return out


def build_shim(src):
    """a preloadable monitor"""
    with _build_lock:
        out = os.path.join(builddir(), os.path.basename(src).split('.')[0] + '.so')
        if not os.path.exists(out):
            _cc(['mpicc', '-shared', '-fPIC', '-O1', '-g', '-Wall', src, '-o', out + '.tmp', '-lpthread', '-ldl'])
            os.rename(out + '.tmp', out)
        return out


def build_utils(tools, variant='plain'):
    # serialised by the lock only around the cache; compile in parallel here
    global _build_lock
    todo = [t for t in tools if not os.path.exists(os.path.join(builddir(), '%s-%s.x' % (t, variant)))]
    lock, _build_lock = _build_lock, threading.Semaphore(NCPU)
    try:
        with concurrent.futures.ThreadPoolExecutor(NCPU) as ex:
            list(ex.map(lambda t: build_util(t, variant), todo))
    finally:
        _build_lock = lock
    return {t: build_util(t, variant) for t in tools}


# -------------------------------------------------------------------- run
class Run:
    def __init__(self, rc, out, timeout, wall):
        self.rc, self.out, self.timeout, self.wall = rc, out, timeout, wall

    def __repr__(self):
        return 'Run(rc=%s timeout=%s)' % (self.rc, self.timeout)


class Slots:
    """weighted semaphore: at most N busy processes/threads at once"""

    def __init__(self, n):
        self.n, self.free, self.c = n, n, threading.Condition()

    def take(self, k):
        k = min(k, self.n)
        with self.c:
            while self.free < k:
                self.c.wait()
            self.free -= k
        return k

    def give(self, k):
        with self.c:
            self.free += k
            self.c.notify_all()


SLOTS = Slots(int(NCPU * 1.5))


def _exec(args, env, cwd, timeout, weight):
    e = dict(MPI_ENV)
    e.update({k: str(v) for k, v in (env or {}).items()})
    k = SLOTS.take(weight)
    # concurrent runs must share neither the session directory of Open MPI
    # (one removes what another is creating) nor the names of its shared
    # memory (16 bits of a hash of the process id)
    tmp = tempfile.mkdtemp(prefix='vt', dir='/tmp')
    e['TMPDIR'] = tmp
    shm = tempfile.mkdtemp(prefix='vt', dir='/dev/shm' if os.access('/dev/shm', os.W_OK) else '/tmp')
    e['OMPI_MCA_btl_vader_backing_directory'] = shm
    t0 = time.time()
    try:
        of = open(os.path.join(cwd, 'out.%d.%d.log' % (threading.get_ident(), random.getrandbits(32))), 'w+b')
        p = subprocess.Popen(args, env=e, cwd=cwd, stdin=subprocess.DEVNULL, stdout=of,
                             stderr=subprocess.STDOUT, start_new_session=True)
        to = False
        try:
            p.wait(timeout)
        except subprocess.TimeoutExpired:
            to = True
            _killtree(p.pid)
            p.wait()
        of.seek(0)
        out = of.read(4000000).decode('utf-8', 'replace')
        of.close()
        os.unlink(of.name)
    finally:
        SLOTS.give(k)
        shutil.rmtree(tmp, ignore_errors=True)
        shutil.rmtree(shm, ignore_errors=True)
    return Run(p.returncode, out, to, time.time() - t0)


def _killtree(pid):
    # mpiexec puts the ranks in process groups of their own: collect descendants first
    kids = {}
    try:
        for l in subprocess.run(['ps', '-e', '-o', 'pid=,ppid='], stdout=subprocess.PIPE, text=True).stdout.split('\n'):
            a = l.split()
            if len(a) == 2:
                kids.setdefault(int(a[1]), []).append(int(a[0]))
    except OSError:
        pass
    todo, all_ = [pid], []
    while todo:
        x = todo.pop()
        all_.append(x)
        todo += kids.get(x, [])
    for x in all_:
        try:
            os.kill(x, signal.SIGKILL)
        except OSError:
            pass


def run_mpi(exe, args, ranks=1, threads=1, env=None, cwd=None, timeout=60, prefix=()):
    """A wall-clock limit is only a watchdog: the run is repeated with three
    times the limit before it is called a hang."""
    e = {'OMP_NUM_THREADS': threads}
    e.update(env or {})
    cmd = list(prefix)
    if ranks is None:
        cmd = cmd + [exe]
    else:
        cmd = ['mpiexec', '-n', str(ranks)] + cmd + [exe]
    cmd += [str(a) for a in args]
    w = max(1, (ranks or 1) * min(threads, 4) // 2)
    run = lambda: _watch(lambda t, k: _exec(cmd, e, cwd or WORK, t, k), timeout, w)
    r = run()
    for _ in range(3):
        # a run that Open MPI could not start is no observation.  About one run
        # in ten thousand dies of a signal in the start or the end of MPI: a
        # few times per check, that counts only if it happens again
        again = 'orte_init failed' in r.out
        if not again and not r.timeout and r.rc and 'signal 11' in r.out and 'ERROR: ' not in r.out:
            with _crash_lock:
                _crashes[0] += 1
                again = _crashes[0] <= 3
        if not again:
            break
        r = run()
    r.cmd = cmd
    return r


_crashes = [0]
_crash_lock = threading.Lock()


_hangs = [0]


def _watch(f, timeout, w):
    if _hangs[0]:
        # something certainly hangs: do not spend the whole budget on it
        timeout = min(timeout, 30)
    r = f(timeout, w)
    if r.timeout and not _hangs[0]:
        r = f(2 * timeout, max(w, 4))
        if r.timeout:
            _hangs[0] += 1
    return r


def run_tool(exe, args, env=None, cwd=None, timeout=60):
    return _watch(lambda t, k: _exec([exe] + [str(a) for a in args], env, cwd or WORK, t, k), timeout, 1)


ENOUGH = 8          # violations after which a check stops looking for more
_stop = threading.Event()


def run_split(exe, args, ranks, cwd, threads=1, prefix=(), timeout=60, env=None):
    """as run_mpi, with the output of each rank in .outs (mpiexec mixes the
    output of the ranks within lines)"""
    tag = 'so%x' % random.getrandbits(40)
    r = run_mpi('sh', ['-c', 'exec "$@" > %s.$OMPI_COMM_WORLD_RANK' % tag, 'sh'] + list(prefix) + [exe] + list(args), ranks,
                threads, env=env, cwd=cwd, timeout=timeout)
    r.outs = []
    for q in range(ranks):
        p = os.path.join(cwd, '%s.%d' % (tag, q))
        r.outs.append(open(p, errors='replace').read() if os.path.exists(p) else None)
        if os.path.exists(p):
            os.unlink(p)
    return r


def pmap(f, items, workers=12):
    def g(x):
        return None if _stop.is_set() else f(x)
    with concurrent.futures.ThreadPoolExecutor(workers) as ex:
        return list(ex.map(g, items))


# ------------------------------------------------------------------- deck
DEFAULT_DECK = dict(
    snOrder=2, iterMax=1, errMax=1e-10, maxCellsPerStep=100, intraAngleP=0, interAngleP=0,
    nGroups=1, sigmaT1=1.0, sigmaS1=0.5, sigmaT2=1.0, sigmaS2=0.5,
    OutputFile='true', OutputFilename='out.psi', SourceIteration='true', MPIType='TychoTwoSided',
    DD_IterMax=100, DD_ErrMax=1e-10, SweepType='TraverseGraph', GaussElim='Original')


def deck_text(d):
    x = dict(DEFAULT_DECK)
    x.update(d)
    return ''.join('%s %s\n' % (k, repr(v) if isinstance(v, float) else v) for k, v in x.items())


# ---------------------------------------------------------------- context
class Check:
    def __init__(self, prop, level='exploration'):
        self.prop = prop
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.level = level
        self.t0 = time.time()
        self.rng = random.Random('%s/%d' % (prop, self.seed))
        self.work = os.path.join(WORK, '%s.%d' % (prop, os.getpid()))
        os.makedirs(self.work, exist_ok=True)
        self.viol = []          # (key, text, files)
        self.counts = {}
        self.samples = []
        self.nontrivial = set()
        self.evals = 0
        self.rule = ''
        self.assumptions = []
        self.inconclusive = []
        self.lock = threading.Lock()
        self.extra = {}

    def quick(self):
        return self.tier == 'quick'

    def n(self, q, t):
        return q if self.tier == 'quick' else t

    def sub(self, name):
        d = os.path.join(self.work, str(name))
        os.makedirs(d, exist_ok=True)
        return d

    def count(self, k, n=1):
        with self.lock:
            self.counts[k] = self.counts.get(k, 0) + n

    def case(self, sig, nontrivial=True, sample=None):
        with self.lock:
            self.evals += 1
            if nontrivial:
                self.nontrivial.add(sig if isinstance(sig, str) else json.dumps(sig, sort_keys=True, default=str))
            if sample is not None and len(self.samples) < 6:
                self.samples.append(sample)

    def violation(self, key, text, files=None):
        """key identifies what fails (matched against the known findings);
        files: {name: path or bytes/str} kept for the replay"""
        with self.lock:
            self.viol.append((key, text, files or {}))
            if sum(3 if 'hang' in v[0] else 1 for v in self.viol if not any(re.fullmatch(k['key'], v[0]) for k in self._known())) >= ENOUGH:
                _stop.set()

    def inconc(self, text):
        with self.lock:
            self.inconclusive.append(text)

    # ---
    def _known(self):
        if not os.path.exists(FINDINGS):
            return []
        return [x for x in json.load(open(FINDINGS))['findings']
                if x.get('property') == self.prop and x.get('status') == 'known']

    def finish(self):
        known = self._known()
        fresh, hit = [], {}
        for key, text, files in self.viol:
            for k in known:
                if re.fullmatch(k['key'], key):
                    hit.setdefault(k['key'], (k, text))
                    break
            else:
                fresh.append((key, text, files))
        for k in hit:
            print('KNOWN-FINDING: property=%s %s' % (self.prop, hit[k][0]['what']))
        shown = {}
        for key, text, files in fresh:
            if key in shown:
                shown[key] += 1
                continue
            shown[key] = 1
            if len(shown) > 5:
                continue
            rid = '%s-%d-%s' % (self.prop, self.seed, hashlib.sha256((key + text).encode()).hexdigest()[:8])
            d = os.path.join(REPLAYS, rid)
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            with open(os.path.join(d, 'README'), 'w') as f:
                f.write('property %s, VERIF_SEED=%d VERIF_TIER=%s\nkey: %s\n\n%s\n' % (
                    self.prop, self.seed, self.tier, key, text))
            for n, v in files.items():
                if isinstance(v, bytes):
                    open(os.path.join(d, n), 'wb').write(v)
                elif os.path.exists(v) and len(v) < 4096:
                    shutil.copy(v, os.path.join(d, n))
                else:
                    open(os.path.join(d, n), 'w').write(v)
            print('--- %s: %s' % (key, text[:1500]))
            print('VIOLATION property=%s replay=%s' % (self.prop, d))
        if len(shown) > 5:
            print('(%d further kinds of violation not shown)' % (len(shown) - 5))
        cov = {'evaluations': self.evals, 'distinct_nontrivial': len(self.nontrivial), 'rule': self.rule,
               'samples': self.samples or ['none'], 'observed': self.counts,
               'inconclusive': self.inconclusive[:20], 'crashes that were tried again': _crashes[0]}
        cov.update(self.extra)
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': self.level,
              'coverage': cov, 'assumptions': self.assumptions,
              'wall_s': round(time.time() - self.t0, 2), 'violations': len(fresh)}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        shutil.rmtree(self.work, ignore_errors=True)
        print('%s %s seed=%d: %d evaluations, %d distinct, %d violations, %d inconclusive, %.1f s; %s' % (
            self.prop, self.tier, self.seed, self.evals, len(self.nontrivial), len(fresh),
            len(self.inconclusive), time.time() - self.t0, json.dumps(self.counts)))
        if fresh:
            return 1
        if self.evals == 0:
            print('ERROR: nothing was observed')
            return 2
        if len(self.inconclusive) > max(2, self.evals // 20):
            print('ERROR: too many inconclusive runs: %s' % self.inconclusive[:5])
            return 2
        return 0
