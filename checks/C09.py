"""C09: threads never race.

The whole program (and the harnesses of other checks) is compiled with
ThreadSanitizer and linked with harness/omp_tsan.cc, an instrumented OpenMP
runtime: every region is a set of pthreads, every critical a mutex, so that
ThreadSanitizer sees exactly the synchronisation the program asks for, and random
delays are injected where threads meet.  The oracle is the happens-before
detector: any report with a frame of the repository is a violation."""
import glob
import os
import random
import re
import cases
import meshlib as ml
import tycholib as tl
import C08

TYPES = C08.TYPES
OMP = tl.HARN + '/omp_tsan.cc'
BORROW = [('C04', 0.15), ('C05', 0.15), ('C06', 0.12), ('C17', 0.15), ('C20', 0.08)]
ENV = {'PMIX_MCA_gds': 'hash'}


class Logs(C08.Logs):
    def __init__(self, d):
        super().__init__(d)
        seed = random.Random(d).randint(1, 10**6)
        self.opt = dict(ENV, MON_OMP_DELAY=str(seed), MON_OMP_LOG=d + '/omp',
                        TSAN_OPTIONS='ignore_noninstrumented_modules=1:halt_on_error=0:exitcode=0:history_size=4:second_deadlock_stack=1:'
                                     'handle_segv=0:handle_abort=0:log_path=' + d + '/san')


def key_of(t):
    m = re.search(r'ThreadSanitizer: ([a-z -]+)', t)
    w = [x for x in re.findall(r'/([A-Za-z0-9_]+\.(?:cc|hh)):\d+', t) if x != 'omp_tsan.cc']
    return '%s/%s' % (m.group(1).strip().replace(' ', '-') if m else 'report', w[0] if w else '?')


def judge(ck, logs, text, files):
    tot = [0, 1, 0, 0]
    for f in glob.glob(logs.d + '/omp.*'):
        for l in open(f):
            v = [int(x) for x in l.split()]
            if len(v) == 4:
                tot = [tot[0] + v[0], max(tot[1], v[1]), tot[2] + v[2], tot[3] + v[3]]
    with ck.lock:
        ck.extra['largest team'] = max(ck.extra.get('largest team', 1), tot[1])
    ck.count('parallel regions', tot[0])
    ck.count('critical sections', tot[2])
    ck.count('barriers', tot[3])
    bad = 0
    for t in logs.reports():
        for one in re.findall(r'WARNING: ThreadSanitizer.*?(?:\n==================|\Z)', t, re.S):
            if re.search(r'%s/[A-Za-z0-9_./]+\.(cc|hh)' % re.escape(tl.REPO), one):
                bad += 1
                ck.violation(key_of(one), '%s\n%s' % (one[:1600], text), dict(files, report=one))
            else:
                ck.count('reports outside of the repository')
    return bad, tot


def one(ck, exe, i):
    rng = random.Random('C09/%d/%d' % (ck.seed, i))
    st = TYPES[i % len(TYPES)]
    mdesc, m = cases.gen_mesh(rng, cases.sz(rng, i, ['tiny', 'small', 'small', 'mid'], 43))
    d = cases.gen_deck(rng, SweepType=st, SourceIteration=rng.choice(['true', 'false']), iterMax=rng.choice([1, 2, 3]),
                       DD_IterMax=rng.choice([1, 2, 5]), DD_ErrMax=1e-6, errMax=1e-300, nGroups=rng.choice([1, 1, 2, 3]))
    nr = min(rng.choice([1, 2, 2, 3, 4]), len(m.cells))
    th = rng.choice([2, 2, 3, 4, 6, 8])
    pv = ml.random_partition(rng, m, nr)
    text = cases.describe(m, mdesc, nr, th, d)
    dd = cases.write_case(ck, 'r%d' % i, m, pv, nr, d, rng)
    logs = Logs(dd + '/log')
    r = cases.run_case(exe, dd, nr, th, timeout=90, env=logs.opt)
    files = cases.replay_files(dd)
    bad, tot = judge(ck, logs, text, files)
    if tot[0] == 0 and not r.timeout and not bad:
        ck.violation('abort', 'a run ended without a single parallel region: %s\n%s' % (text, r.out[-1500:]), files)
    elif (r.timeout or r.rc) and not bad:
        ck.violation('hang' if r.timeout else 'abort', 'a valid problem does not finish normally under ThreadSanitizer: %s\n%s' % (text, r.out[-1500:]), files)
    ck.case((mdesc, len(m.cells), nr, th, sorted(d.items())), tot[1] > 1, text)
    ck.count('runs of ' + st)
    tl.shutil.rmtree(dd, ignore_errors=True)


def main():
    ck = tl.Check('C09')
    ck.rule = ('a case is one run under ThreadSanitizer; distinct by problem and configuration; nontrivial when a region with more than one '
               'thread was executed')
    ck.assumptions = ['MPI and PETSc are not instrumented; accesses inside them are not judged',
                      'the OpenMP runtime is replaced by one built on pthreads, which synchronises only where OpenMP promises it']
    exe = tl.build_sweep('tsan', [OMP], 'sweep_tsan')
    tl.pmap(lambda i: one(ck, exe, i), range(ck.n(220, 3000)))
    C08.borrow(ck, BORROW, 'tsan', Logs, judge, [OMP])
    return ck.finish()
