"""C27: what a run holds does not grow with the number of its iterations.

A preloaded monitor (harness/shim_mem.c) records, at every MPI_Allreduce, the
memory held by the program, by PETSc and by all other libraries, the open files
and the threads.  The samples of the setup are those of the same run with one
iteration; of the rest, the second half may not hold more than the first half
held, by an amount in proportion to the iterations; what looks like it must do so
again with four times as many iterations."""
import os
import random
import cases
import meshlib as ml
import tycholib as tl

TYPES = ['TraverseGraph', 'OriginalTycho1', 'OriginalTycho2', 'PBJ', 'PBJOuter', 'PBJSI', 'Schur', 'SchurOuter', 'SchurKrylov']
WHAT = ['bytes allocated by the program', 'blocks allocated by the program', 'bytes allocated in PETSc', 'blocks allocated in PETSc',
        'bytes allocated in other libraries', 'blocks allocated in other libraries', 'open files', 'threads']
# growth per iteration that a history of numbers may cost
ALLOW = [64, 0.5, 64, 0.5, 64, 0.5, 0.2, 0.2]


def samples(exe, shim, dd, nr, th, d, key, it):
    d = dict(d, **{key: it})
    open(dd + '/x.deck', 'w').write(tl.deck_text(d))
    r = cases.run_case(exe, dd, nr, th, timeout=150, prefix=['env', 'LD_PRELOAD=' + shim, 'MON_MEM=%s/mem' % dd])
    if r.err:
        return r.err, r
    S = []
    for q in range(nr):
        p = '%s/mem.%d' % (dd, q)
        if not os.path.exists(p):
            return 'no-samples', r
        L = [[int(x) for x in l.split()] for l in open(p) if not l.startswith('end')]
        os.unlink(p)
        S.append(L)
    return None, S


def growth(S, first, it):
    """-> [(rank, what, growth, per iteration)] beyond what is allowed"""
    bad = []
    for q, L in enumerate(S):
        L = L[first:]
        h = len(L) // 2
        for k in range(8):
            v = [[x[k] for x in w if x[k] >= 0] for w in (L[:h], L[h:])]
            if not v[0] or not v[1]:
                continue
            if k >= 6:
                g = max(v[1]) - max(v[0])
            else:
                # every iteration goes through the same states: compare the lowest and the highest
                g = min(min(v[1]) - min(v[0]), max(v[1]) - max(v[0]))
            if g > ALLOW[k] * it / 4.0 and g > 0:
                bad.append((q, WHAT[k], g, it))
    return bad


def one(ck, exe, shim, i):
    rng = random.Random('C27/%d/%d' % (ck.seed, i))
    st = TYPES[i % len(TYPES)]
    mdesc, m = cases.gen_mesh(rng, rng.choice(['tiny', 'small', 'small']))
    it = rng.choice([120, 160, 240])
    # thick, scattering bodies: slow convergence
    d = cases.gen_deck(rng, SweepType=st, SourceIteration='false' if (i // len(TYPES)) % 3 == 2 else 'true', errMax=1e-300, snOrder=rng.choice([2, 2, 4]),
                       sigmaT1=1.0 + rng.random(), sigmaT2=3 * rng.random() + 0.5, DD_IterMax=rng.choice([1, 2, 4]), DD_ErrMax=rng.choice([1e-300, 1e-4]))
    for k in '12':
        d['sigmaS' + k] = d['sigmaT' + k] * rng.choice([0.97, 0.99, 0.999])
    nr = cases.gen_ranks(rng, m)
    th = rng.choice([1, 1, 2, 3])
    if st == 'OriginalTycho2' and nr * th > 8:
        th = 1
    pv = ml.random_partition(rng, m, nr)
    dd = cases.write_case(ck, str(i), m, pv, nr, d, rng)
    key = 'DD_IterMax' if st in ('PBJSI', 'SchurKrylov') or (st[-5:] == 'Outer' and rng.random() < 0.4) else 'iterMax'
    if key == 'DD_IterMax':
        d['DD_ErrMax'] = 1e-300
    text = cases.describe(m, mdesc, nr, th, dict(d, **{key: it}))
    open(dd + '/x.deck', 'w').write(tl.deck_text(dict(d, **{key: it})))
    files = cases.replay_files(dd)
    err, S1 = samples(exe, shim, dd, nr, th, d, key, 1)
    if err:
        ck.violation(err, 'a valid problem fails: %s\n%s' % (text, S1.out[-1200:]), files)
        return
    first = len(S1[0])
    err, S = samples(exe, shim, dd, nr, th, d, key, it)
    if err:
        ck.violation(err, 'a valid problem fails: %s\n%s' % (text, S.out[-1200:]), files)
        return
    n = len(S[0]) - first
    ck.count('samples', sum(len(x) for x in S))
    ck.case((mdesc, len(m.cells), nr, th, it, sorted(d.items())), n >= it // 2, {'case': text, 'samples after the first iteration': n})
    ck.count('runs of ' + st)
    if n < 40:
        ck.count('runs that end too early: ' + st)
        return
    its = min(it, n)
    bad = growth(S, first, its)
    if bad:
        ck.count('suspected growth, repeated with more iterations')
        err, S = samples(exe, shim, dd, nr, th, d, key, 4 * it)
        if err:
            ck.inconc('repetition with more iterations: %s %s' % (err, text))
            return
        n4 = len(S[0]) - first
        if n4 < 2 * n:
            ck.count('suspected growth in runs that converged')
            return
        again = growth(S, first, min(4 * its, n4))
        # in proportion: a method that starts to use more of its workspace does that once
        both = [b for b in again if any(a[:2] == b[:2] and b[2] >= 2 * a[2] for a in bad)]
        if both:
            q, what, g, k = both[0]
            ck.violation('growth/' + what.replace(' ', '-'), 'rank %d: %s grow by %d over %d iterations (%s)\n%s' % (
                q, what, g, k // 2, [b[1:3] for b in both], text), files)
    tl.shutil.rmtree(dd, ignore_errors=True)


def main():
    ck = tl.Check('C27')
    ck.rule = ('a case is one problem run with many iterations; distinct by problem and configuration; nontrivial when the monitor took at '
               'least one sample for every other iteration')
    ck.assumptions = ['up to 64 bytes and half a block per iteration are allowed: a history of numbers for the log may be kept',
                      'resources are observed at global reductions, between the pieces of work']
    exe = tl.build_sweep('plain')
    shim = tl.build_shim(tl.HARN + '/shim_mem.c')
    tl.pmap(lambda i: one(ck, exe, shim, i), range(ck.n(81, 1200)))
    return ck.finish()
