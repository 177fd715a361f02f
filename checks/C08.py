"""C08: no memory error or undefined behaviour.

(a) sweep.x and the mesh tools built with AddressSanitizer and UndefinedBehaviorSanitizer on
    random problems, all methods, and meshes to some thousand cells; the workloads of the other checks (traversals,
    schedules, exchanges, mesh readers, tools, decks, refused and cut files) are
    borrowed and run on sanitized builds.
(b) valgrind memcheck on sweep.x and on the tools, for uninitialised values.
(c) the same run with different contents of fresh memory (malloc and stack)
    must give the same flux and the same log."""
import glob
import hashlib
import importlib
import os
import random
import re
import numpy as np
import cases
import meshlib as ml
import tycholib as tl

TYPES = ['TraverseGraph', 'OriginalTycho1', 'OriginalTycho2', 'PBJ', 'PBJOuter', 'PBJSI', 'Schur', 'SchurOuter', 'SchurKrylov']
DIRECT = TYPES[:3]
SAN = ('detect_leaks=0:detect_stack_use_after_return=1:strict_string_checks=1:handle_segv=2:handle_sigbus=2:handle_sigfpe=2:'
       'handle_abort=0:print_stacktrace=1:check_initialization_order=1:allocator_may_return_null=0:log_path=')


def ours(text):
    """the report is about code of the repository"""
    return re.search(r'(%s|/harness)/[A-Za-z0-9_./]+\.(cc|hh)' % re.escape(tl.REPO), text) is not None


def key_of(text):
    m = re.search(r'(AddressSanitizer|LeakSanitizer): ([a-zA-Z0-9-]+)', text) or re.search(r'(runtime error): ([^\n]{0,40})', text)
    w = re.search(r'/([A-Za-z0-9_]+\.(?:cc|hh)):\d+', text)
    return '%s/%s' % (re.sub(r'[^a-z]+', '-', m.group(2).lower()).strip('-') if m else 'report', w.group(1) if w else '?')


class Logs:
    """sanitizer logs of one directory"""

    def __init__(self, d):
        os.makedirs(d, exist_ok=True)
        self.d = d
        self.opt = {'ASAN_OPTIONS': SAN + d + '/san', 'UBSAN_OPTIONS': 'print_stacktrace=1:log_path=' + d + '/san'}

    def reports(self):
        out = []
        for f in sorted(glob.glob(self.d + '/san.*')):
            t = open(f, errors='replace').read()
            if t.strip():
                out.append(t)
        return out


def judge(ck, logs, text, files):
    n = 0
    for t in logs.reports():
        if ours(t):
            n += 1
            ck.violation(key_of(t), '%s\n%s' % (t[:1400], text), dict(files, report=t))
        else:
            ck.count('reports outside of the repository')
    return n


# ---------------------------------------------------------------- (a)
def sane(ck, exe, i):
    rng = random.Random('C08/a/%d/%d' % (ck.seed, i))
    st = TYPES[i % len(TYPES)]
    mdesc, m = cases.gen_mesh(rng, cases.sz(rng, i, ['tiny', 'small', 'small', 'mid'], 13))
    d = cases.gen_deck(rng, SweepType=st, SourceIteration=rng.choice(['true', 'false']), iterMax=rng.choice([0, 1, 2, 4]),
                       DD_IterMax=rng.choice([0, 1, 2, 5, 20]), DD_ErrMax=1e-6, errMax=rng.choice([1e-300, 1e-4]),
                       nGroups=rng.choice([1, 1, 2, 3, 5, 8, 13]), OutputFile=rng.choice(['true', 'true', 'false']))
    nr = min(rng.choice([1, 2, 3, 4, 6, 8]), len(m.cells))
    th = rng.choice([1, 2, 3, 5, 8, 9])
    pv = ml.random_partition(rng, m, nr)
    text = cases.describe(m, mdesc, nr, th, d)
    dd = cases.write_case(ck, 'a%d' % i, m, pv, nr, d, rng)
    logs = Logs(dd + '/log')
    r = cases.run_case(exe, dd, nr, th, timeout=90, env=logs.opt)
    files = cases.replay_files(dd)
    ck.case((mdesc, len(m.cells), nr, th, sorted(d.items())), True, text)
    ck.count('sanitized runs of ' + st)
    bad = judge(ck, logs, text, files)
    if not bad and (r.timeout or r.rc):
        ck.violation('hang' if r.timeout else 'abort', 'a valid problem does not finish normally: %s\n%s' % (text, r.out[-1500:]), files)
    tl.shutil.rmtree(dd, ignore_errors=True)


class Borrowed(tl.Check):
    """the workload of another check; its verdicts are its own business"""
    frac, owner, tag = 0.1, None, ''

    def __init__(self, prop, level=''):
        super().__init__(prop, level)
        self.tier = 'quick'
        self.seed = self.owner.seed * 7919 + 17
        self.rng = random.Random('borrow/%s/%d' % (prop, self.seed))

    def n(self, q, t):
        k = q if self.owner.quick() else t
        return max(1, int(k * self.frac))

    def case(self, sig, nontrivial=True, sample=None):
        self.owner.case(['borrowed', self.prop, sig], nontrivial)
        self.owner.count('sanitized runs of the workload of ' + self.prop)

    def count(self, k, n=1):
        pass

    def violation(self, key, text, files=None):
        with self.owner.lock:
            self.owner.extra['verdicts of borrowed workloads (not judged here)'] = self.owner.extra.get(
                'verdicts of borrowed workloads (not judged here)', 0) + 1

    def inconc(self, text):
        pass

    def finish(self):
        tl.shutil.rmtree(self.work, ignore_errors=True)
        return 0


BORROW = [('C04', 0.12), ('C05', 0.12), ('C06', 0.1), ('C11', 0.1), ('C12', 0.12), ('C13', 0.08), ('C14', 0.15), ('C16', 0.1), ('C17', 0.15),
          ('C23', 0.08), ('C10', 0.1)]


def borrow(ck, todo=BORROW, variant='asan', mklogs=Logs, judge=judge, extra=()):
    """extra: sources added to every program built from the sweep's sources"""
    saved = {k: getattr(tl, k) for k in ('Check', 'build_sweep', 'build_util', 'build_utils', 'build_serial')}
    env = dict(tl.MPI_ENV)

    def forced(f, sweep=False):
        def g(*a, **k):
            a = list(a)
            # the variant is an argument of each builder
            for j, x in enumerate(a):
                if isinstance(x, str) and x in tl.VARIANTS:
                    a[j] = variant
                    break
            else:
                k['variant'] = variant
            if sweep and extra:
                if len(a) == 1:
                    a += [list(extra), 'sweep_' + variant]
                else:
                    a[1] = list(a[1]) + list(extra)
            return f(*a, **k)
        return g
    for prop, frac in todo:
        mod = importlib.import_module(prop)
        logs = mklogs(ck.sub('log-' + prop))
        Borrowed.frac, Borrowed.owner = frac, ck
        try:
            tl.MPI_ENV.update(logs.opt)
            tl.Check = Borrowed
            for k in ('build_sweep', 'build_util', 'build_serial'):
                setattr(tl, k, forced(saved[k], k == 'build_sweep'))
            tl.build_utils = lambda tools, v='': saved['build_utils'](tools, variant)
            mod.main()
        finally:
            tl.MPI_ENV.clear()
            tl.MPI_ENV.update(env)
            for k, v in saved.items():
                setattr(tl, k, v)
        judge(ck, logs, 'workload of %s (VERIF_SEED=%d)' % (prop, ck.seed), {})


# ---------------------------------------------------------------- (b)
KINDS = ('Conditional jump', 'Use of uninit', 'Invalid read', 'Invalid write', 'Invalid free', 'Mismatched free', 'Source and destination overlap',
         'Argument ', 'Jump to the invalid')


def vg_errors(out):
    """memcheck reports whose innermost frames are code of the repository"""
    bad = []
    for pid in set(re.findall(r'==(\d+)==', out)):
        ls = [l.split('== ', 1)[1] if '== ' in l else '' for l in out.split('\n') if l.startswith('==%s==' % pid)]
        block = []
        for l in ls + ['']:
            if l.strip():
                block.append(l)
                continue
            if block and block[0].startswith('Thread'):
                block = block[1:]
            if block and block[0].startswith(KINDS):
                st = []
                for x in block[1:]:
                    if re.match(r'\s+(at|by) 0x', x):
                        st.append(x)
                    else:
                        break
                # frames of the repository have a source name; library frames are skipped only at the top
                if any(re.search(r'\((?!vg_|mc_)[A-Za-z0-9_]+\.(cc|hh):\d+\)', x) and not re.search(r'(ios|std|basic|ostream)', x) for x in st[:3]):
                    bad.append('\n'.join(block))
            block = []
    return bad


VG = ['valgrind', '-q', '--fair-sched=try', '--num-callers=20', '--track-origins=no', '--error-exitcode=0']


def memcheck(ck, exe, i):
    rng = random.Random('C08/b/%d/%d' % (ck.seed, i))
    st = TYPES[i % len(TYPES)]
    mdesc, m = cases.gen_mesh(rng, rng.choice(['tiny', 'small']))
    d = cases.gen_deck(rng, SweepType=st, SourceIteration=rng.choice(['true', 'false']), iterMax=rng.choice([1, 2]),
                       DD_IterMax=rng.choice([1, 2, 4]), DD_ErrMax=1e-6, snOrder=2, nGroups=rng.choice([1, 2, 3]),
                       GaussElim=['Original', 'NoPivot', 'CramerGlu', 'CramerIntel'][i % 4])
    nr = min(rng.choice([1, 2]), len(m.cells))
    pv = ml.random_partition(rng, m, nr)
    text = 'valgrind: ' + cases.describe(m, mdesc, nr, 1, d)
    dd = cases.write_case(ck, 'b%d' % i, m, pv, nr, d, rng)
    r = tl.run_mpi('sh', ['-c', 'exec %s --log-file=vg.%%p "$@"' % ' '.join(VG), 'sh', exe, 'm.pmesh', 'x.deck'], nr, 1, cwd=dd, timeout=150)
    files = cases.replay_files(dd)
    if r.timeout:
        ck.inconc('valgrind run too slow: ' + text)
        return
    ck.case(('vg', mdesc, len(m.cells), nr, sorted(d.items())), True, text)
    ck.count('memcheck runs of sweep.x')
    out = '\n'.join(open(f, errors='replace').read() for f in glob.glob(dd + '/vg.*'))
    e = vg_errors(out)
    if e:
        ck.violation('memcheck/' + (re.search(r'\(([A-Za-z0-9_]+\.(?:cc|hh)):', e[0]) or [0, '?'])[1], '%s\n%s' % (e[0][:1200], text), dict(files, log=out))
    elif r.rc:
        ck.violation('abort', 'fails under valgrind: %s\n%s' % (text, r.out[-1500:]), files)
    tl.shutil.rmtree(dd, ignore_errors=True)


def memtool(ck, tools, i):
    rng = random.Random('C08/t/%d/%d' % (ck.seed, i))
    m = cases.gen_mesh(rng, cases.sz(rng, i, ['tiny', 'small', 'small'], 13))[1]
    dd = ck.sub('t%d' % i)
    m.write(dd + '/in')
    tool = ['PartitionColumns', 'PartitionMetis', 'RefineSerialMesh', 'SerialMeshInfo'][i % 4]
    args = {'PartitionColumns': [rng.randint(1, 3), rng.randint(1, 3), 'in', 'out'], 'PartitionMetis': [min(len(m.cells), rng.randint(1, 4)), 'in', 'out'],
            'RefineSerialMesh': ['in', 'out'], 'SerialMeshInfo': ['in', rng.choice(['verbose', 'x'])]}[tool]
    if tool == 'PartitionColumns':
        while args[0] * args[1] > len(m.cells):
            args[:2] = [rng.randint(1, 2), 1]
    if rng.random() < 0.3:
        b = open(dd + '/in', 'rb').read()
        open(dd + '/in', 'wb').write(b[:rng.randrange(len(b))])
    r = tl.run_tool('valgrind', VG[1:] + ['--log-file=vg.%p', tools[tool]] + args, cwd=dd, timeout=120)
    text = 'valgrind: %s %s (%d cells)' % (tool, args, len(m.cells))
    ck.case((text, i), True, text)
    ck.count('memcheck runs of ' + tool)
    out = '\n'.join(open(f, errors='replace').read() for f in glob.glob(dd + '/vg.*'))
    e = vg_errors(out)
    if e:
        ck.violation('memcheck/' + tool, '%s\n%s' % (e[0][:1200], text), dict(cases.replay_files(dd), log=out))
    # what is written must not depend on what was in memory
    if tool in ('PartitionColumns', 'PartitionMetis', 'RefineSerialMesh') and r.rc == 0:
        hs = set()
        for p in ('0', '85', '254'):
            tl.run_tool(tools[tool], args, cwd=dd, env={'MALLOC_PERTURB_': p})
            hs.add(hashlib.sha256(open(dd + '/out', 'rb').read()).hexdigest())
        ck.count('tool outputs compared under different memory contents')
        if len(hs) != 1:
            ck.violation('contents/' + tool, 'output depends on the contents of fresh memory: ' + text, cases.replay_files(dd))
    tl.shutil.rmtree(dd, ignore_errors=True)


def largetool(ck, tools, i):
    """mesh tools with AddressSanitizer on meshes of all proportions: compact, flat, long, of some thousand cells"""
    rng = random.Random('C08/l/%d/%d' % (ck.seed, i))
    if i % 5 == 4:
        n, m = 'delaunay', cases.gen_mesh(rng, 'mid', 'delaunay')[1]
    else:
        n = [rng.choice([1, 2, 4, 6, 9]) for _ in range(3)] if i % 2 else [rng.randint(4, 8)] * 3
        m = ml.kuhn_mesh(rng, n[0], n[1], n[2], 80.0, 0.2, 'mix', lo=rng.choice([10.0, -40.0]))
    C = len(m.cells)
    dd = ck.sub('l%d' % i)
    m.write(dd + '/in')
    logs = Logs(dd + '/log')
    for tool, args in (('PartitionMetis', [rng.choice([2, 3, 7, min(C, 40)]), 'in', 'out']),
                       ('PartitionColumns', [rng.choice([1, 2, 5, 9]), rng.choice([1, 3, 4]), 'in', 'out']),
                       ('RefineSerialMesh', ['in', 'out']), ('SerialMeshInfo', ['in'] + ['verbose'] * (i % 3 == 0))):
        if tool == 'PartitionMetis' and args[0] > C or tool == 'PartitionColumns' and args[0] * args[1] > C or tool == 'RefineSerialMesh' and C > 600:
            continue
        text = 'sanitized: %s %s (%s, %d cells)' % (tool, args, n, C)
        r = tl.run_tool(tools[tool], args, cwd=dd, timeout=120, env=logs.opt)
        ck.case((text, i), True, text)
        ck.count('sanitized runs of ' + tool)
        if not judge(ck, logs, text, cases.replay_files(dd)) and (r.rc or r.timeout):
            ck.violation('tool/' + tool, 'fails on a valid mesh: %s\n%s' % (text, r.out[-1200:]), cases.replay_files(dd))
        for f in glob.glob(dd + '/log/*'):
            os.unlink(f)
    tl.shutil.rmtree(dd, ignore_errors=True)


# ---------------------------------------------------------------- (c)
def strip(out):
    out = re.sub(r'(?m)^.*(time|Time|Done|hwloc).*$', lambda m: re.sub(r'(time|Time|Done).*', '', m.group(0)), out)
    return [l for l in out.split('\n') if l.strip()]


def contents(ck, exes, i):
    rng = random.Random('C08/c/%d/%d' % (ck.seed, i))
    st = TYPES[i % len(TYPES)]
    mdesc, m = cases.gen_mesh(rng, cases.sz(rng, i, ['tiny', 'small', 'small', 'mid'], 13))
    d = cases.gen_deck(rng, SweepType=st, SourceIteration=rng.choice(['true', 'true', 'false']), iterMax=rng.choice([1, 2, 4]),
                       DD_IterMax=rng.choice([1, 2, 6]), DD_ErrMax=1e-6, nGroups=rng.choice([1, 2, 4]))
    nr = cases.gen_ranks(rng, m)
    th = rng.choice([1, 2, 3])
    pv = ml.random_partition(rng, m, nr)
    text = cases.describe(m, mdesc, nr, th, d)
    dd = cases.write_case(ck, 'c%d' % i, m, pv, nr, d, rng)
    res = []
    for exe, p in ((exes[0], '0'), (exes[1], '85'), (exes[1], '254')):
        r = cases.run_case(exe, dd, nr, th, env={'MALLOC_PERTURB_': p})
        if r.err:
            ck.violation('%s/%s' % (r.err, 'contents'), 'valid problem fails with MALLOC_PERTURB_=%s: %s\n%s' % (p, text, r.out[-1500:]), cases.replay_files(dd))
            return
        res.append((p, r.psi, strip(r.out)))
    ck.case(('contents', mdesc, len(m.cells), nr, th, sorted(d.items())), np.abs(res[0][1]).max() > 0, text)
    ck.count('runs compared under different memory contents', 2)
    exact = st in DIRECT and d['SourceIteration'] == 'true'
    for p, psi, out in res[1:]:
        top = np.abs(res[0][1]).max()
        same = np.array_equal(psi, res[0][1], equal_nan=True) if exact else np.allclose(psi, res[0][1], rtol=0, atol=1e-9 * top, equal_nan=True)
        if not same:
            ck.violation('contents/flux', 'flux depends on the contents of fresh memory (MALLOC_PERTURB_=%s, stack pattern): %s' % (p, text), cases.replay_files(dd))
            return
        if exact and sorted(out) != sorted(res[0][2]):
            diff = sorted(set(out) ^ set(res[0][2]))[:4]
            ck.violation('contents/log', 'log depends on the contents of fresh memory (MALLOC_PERTURB_=%s, stack pattern): %s\n%s' % (p, diff, text), cases.replay_files(dd))
            return
    tl.shutil.rmtree(dd, ignore_errors=True)


def main():
    ck = tl.Check('C08')
    ck.rule = ('a case is one run under sanitizers or valgrind, or one set of runs under different memory contents; distinct by problem and '
               'configuration')
    ck.assumptions = ['leaks are not errors', 'Open MPI, PETSc and Metis are not instrumented; reports without a frame of the repository are not judged']
    tl.VARIANTS['pattern'] = ['-O2', '-ftrivial-auto-var-init=pattern']
    tl.VARIANTS['zero'] = ['-O2', '-ftrivial-auto-var-init=zero']
    asan = tl.build_sweep('asan')
    debug = tl.build_sweep('debug')
    exes = [tl.build_sweep(v) for v in ('zero', 'pattern')]
    tools = tl.build_utils(['PartitionColumns', 'PartitionMetis', 'RefineSerialMesh', 'SerialMeshInfo'], 'debug')
    only = os.environ.get('C08_ONLY', 'abtlcw')
    if 'a' in only:
        tl.pmap(lambda i: sane(ck, asan, i), range(ck.n(150, 3000)))
    if 'b' in only:
        tl.pmap(lambda i: memcheck(ck, debug, i), range(ck.n(18, 200)), 6)
    if 't' in only:
        tl.pmap(lambda i: memtool(ck, tools, i), range(ck.n(24, 300)))
    if 'l' in only:
        at = tl.build_utils(['PartitionColumns', 'PartitionMetis', 'RefineSerialMesh', 'SerialMeshInfo'], 'asan')
        tl.pmap(lambda i: largetool(ck, at, i), range(ck.n(24, 600)))
    if 'c' in only:
        tl.pmap(lambda i: contents(ck, exes, i), range(ck.n(60, 1200)))
    if 'w' in only:
        borrow(ck)
    return ck.finish()
