"""C01: every source iteration solves the discretised transport equation.

Runs the real sweep.x for k-1 and k iterations on random problems; an
independent discretisation decides whether iterate k is the upwind solution for
the scattering source of iterate k-1 (iterate 0 is zero)."""
import random
import numpy as np
import cases
import meshlib as ml
import tycholib as tl

TOL = 1e-9


def one(ck, exe, i):
    rng = random.Random('C01/%d/%d' % (ck.seed, i))
    if i == 0:      # always: the tetrahedra of a regular grid, faces parallel to directions
        mdesc, m = cases.gen_mesh(rng, 'small', 'kuhn')
        d = cases.gen_deck(rng, snOrder=rng.choice([2, 6]), SweepType='TraverseGraph')
    else:
        size = rng.choice(['small'] * 5 + ['mid']) if ck.quick() else rng.choice(['tiny', 'small', 'small', 'mid'])
        size = 'large' if i % 11 == 10 else size
        mdesc, m = cases.gen_mesh(rng, size)
        d = cases.gen_deck(rng)
        if rng.random() < 0.04:
            d['snOrder'] = rng.choice([8, 10])
        w = cases.wide(rng, i, 15)
        if w:
            mdesc, m, d['snOrder'], d['nGroups'] = w
    nr = cases.gen_ranks(rng, m)
    th = cases.gen_threads(rng, m, d, nr)
    pv = ml.random_partition(rng, m, nr)
    pr = cases.problem(m, d)
    text = cases.describe(m, mdesc, nr, th, d)
    k = d['iterMax']
    prev = np.zeros((len(m.cells), len(pr.dirs), 4, d['nGroups']))
    dd = cases.write_case(ck, i, m, pv, nr, dict(d, iterMax=k - 1), rng, 'prev.deck')
    open(dd + '/x.deck', 'w').write(tl.deck_text(d))
    if k > 1:
        r = cases.run_case(exe, dd, nr, th, 'prev.deck')
        if r.err:
            ck.violation(r.err, 'valid problem failed: %s\n%s' % (text, r.out[-1500:]), cases.replay_files(dd))
            return
        prev = r.psi
    r = cases.run_case(exe, dd, nr, th)
    if r.err:
        ck.violation(r.err, 'valid problem failed: %s\n%s' % (text, r.out[-1500:]), cases.replay_files(dd))
        return
    psi = r.psi
    if psi.shape != prev.shape:
        ck.violation('shape', 'psi has shape %s, expected %s: %s' % (psi.shape, prev.shape, text), cases.replay_files(dd))
        return
    scale = np.abs(psi).max()
    df = np.abs(pr.defect(psi, pr.phi(prev)))
    ok = np.isfinite(psi).all() and df.max() <= TOL * scale + 1e-300
    src = np.abs(pr.q).max()
    if src > 0 and scale == 0:
        ok = False
    ck.case((mdesc, len(m.cells), nr, th, sorted(d.items())), scale > 0,
            {'case': text, 'max psi': float(scale), 'relative defect': float(df.max() / scale) if scale else 0.0})
    ck.count('cell-angle equations checked', psi.shape[0] * psi.shape[1])
    ck.count('sweep %s' % d['SweepType'])
    ck.count('elim %s' % d['GaussElim'])
    if nr > 1:
        ck.count('multi-rank runs')
    if not ok:
        w = np.unravel_index(np.argmax(np.where(np.isfinite(df), df, np.inf)), df.shape)
        ck.violation('equation', 'iterate %d does not satisfy its equation: worst (cell,angle,vertex,group)=%s psi=%g '
                     'defect=%g of max %g\n%s' % (k, w, psi[w], df[w], scale, text), cases.replay_files(dd))
    for f in ('/out.psi',):
        tl.os.unlink(dd + f)


def main():
    ck = tl.Check('C01')
    ck.rule = ('a case is one random (mesh, partition, ranks, threads, deck, iteration); non-trivial if the flux is '
               'not identically zero; distinct by mesh shape and full deck')
    ck.assumptions = ['meshes whose upwind relation is acyclic for every direction', 'Open MPI shared memory transport']
    exe = tl.build_sweep('plain')
    tl.pmap(lambda i: one(ck, exe, i), range(ck.n(150, 2500)))
    return ck.finish()
