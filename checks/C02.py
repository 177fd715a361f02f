"""C02: every solution method converges to the solution of the same discrete
equations.  The converged psi of the real program is put into an independent
discretisation, scattering source included."""
import random
import numpy as np
import cases
import meshlib as ml
import tycholib as tl

TYPES = ['TraverseGraph', 'OriginalTycho1', 'OriginalTycho2', 'PBJ', 'PBJOuter', 'PBJSI', 'Schur', 'SchurOuter', 'SchurKrylov']
TOL = 1e-8


def one(ck, exe, i):
    rng = random.Random('C02/%d/%d' % (ck.seed, i))
    st = TYPES[i % len(TYPES)]
    si = ['true', 'false'][(i // len(TYPES)) % 2]
    mdesc, m = cases.gen_mesh(rng, rng.choice(['tiny', 'small', 'small']))
    d = cases.gen_deck(rng, SweepType=st, SourceIteration=si, snOrder=rng.choice([2, 2, 4]), iterMax=3000,
                       errMax=1e-12, DD_IterMax=3000, DD_ErrMax=1e-13)
    for k in '12':
        if rng.random() < 0.15:
            d['sigmaT' + k] = rng.choice([0.0, 1e-5, 20.0, 60.0])
        d['sigmaS' + k] = d['sigmaT' + k] * rng.choice([0.0, 0.3, 0.6, 0.6, 0.9, 1e-3, 1e-6])
    if rng.random() < 0.1:
        # groups sizes beyond the ones the tests use
        d['nGroups'] = rng.choice([4, 5])
    nr = cases.gen_ranks(rng, m)
    th = cases.gen_threads(rng, m, d, nr)
    pv = ml.random_partition(rng, m, nr)
    pr = cases.problem(m, d)
    text = cases.describe(m, mdesc, nr, th, d)
    dd = cases.write_case(ck, i, m, pv, nr, d, rng)
    r = cases.run_case(exe, dd, nr, th, timeout=90)
    if r.err:
        ck.violation('%s/%s' % (r.err, st), 'valid problem failed: %s\n%s' % (text, r.out[-1500:]), cases.replay_files(dd))
        return
    psi = r.psi
    if psi.shape != (len(m.cells), len(pr.dirs), 4, d['nGroups']):
        ck.violation('shape', 'psi has shape %s: %s' % (psi.shape, text), cases.replay_files(dd))
        return
    scale = np.abs(psi).max()
    df = np.abs(pr.defect(psi, pr.phi(psi)))
    ok = np.isfinite(psi).all() and df.max() <= TOL * scale + 1e-300
    if np.abs(pr.q).max() > 0 and scale == 0:
        ok = False
    ck.case((mdesc, len(m.cells), nr, th, sorted(d.items())), scale > 0,
            {'case': text, 'max psi': float(scale), 'relative defect': float(df.max() / scale) if scale else 0.0})
    ck.count('%s %s' % (st, 'SI' if si == 'true' else 'Krylov'))
    ck.count('cell-angle equations checked', psi.shape[0] * psi.shape[1])
    if nr > 1:
        ck.count('multi-rank runs')
    if not ok:
        w = np.unravel_index(np.argmax(np.where(np.isfinite(df), df, np.inf)), df.shape)
        ck.violation('solution', 'converged result does not solve the discrete equations: worst (cell,angle,vertex,group)'
                     '=%s psi=%g defect=%g of max %g\n%s' % (w, psi[w], df[w], scale, text), cases.replay_files(dd))
    tl.os.unlink(dd + '/out.psi')


def main():
    ck = tl.Check('C02')
    ck.rule = ('a case is one random (mesh, partition, ranks, threads, deck) per solution method and outer iteration; '
               'non-trivial if the flux is not identically zero; distinct by mesh shape and full deck')
    ck.assumptions = ['scattering ratio at most 0.9, so that the iterations converge within their limits',
                      'meshes whose upwind relation is acyclic for every direction']
    exe = tl.build_sweep('plain')
    tl.pmap(lambda i: one(ck, exe, i), range(ck.n(108, 1800)))
    return ck.finish()
