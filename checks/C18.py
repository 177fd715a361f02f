"""C18: particles are conserved, in every cell, on every rank and in total.

The monitor adds up what crosses faces, what collides and what is emitted from
the flux files of consecutive iterates; it knows nothing of the finite elements
except that the flux is linear in a cell and taken upwind at faces."""
import random
import numpy as np
import cases
import meshlib as ml
import tycholib as tl

TOL = 1e-9
TYPES = ['TraverseGraph', 'OriginalTycho1', 'OriginalTycho2', 'PBJ', 'PBJOuter', 'PBJSI', 'Schur', 'SchurOuter', 'SchurKrylov']


def terms(pr, psi, phi):
    """-> outflow, inflow, collisions, emission: (C,A,G) each"""
    g = pr.geo
    C, A, _, G = psi.shape
    out = np.zeros((C, A, G))
    inn = np.zeros((C, A, G))
    for k in range(4):
        own = psi[:, :, [j for j in range(4) if j != k], :].mean(2)
        up = np.zeros((C, A, G))
        for c in range(C):
            d = g.nb[c, k]
            if d >= 0:
                up[c] = psi[d][:, [g.nbv[c, k, j] for j in range(4) if j != k], :].mean(1)
        out += np.maximum(pr.a[:, :, k], 0)[..., None] * own
        inn += np.maximum(-pr.a[:, :, k], 0)[..., None] * up
    col = (pr.sT * g.V)[:, None, None] * psi.mean(2)
    q = pr.q.mean(2)[..., None] + (pr.sS[:, None] / (4 * np.pi) * phi.mean(1))[:, None, :]
    return out, inn, col, g.V[:, None, None] * q


def size(pr, psi, phi):
    t = terms(pr, np.abs(psi), np.abs(phi))
    return t[0] + t[1] + t[2] + pr.geo.V[:, None, None] * np.abs(pr.q).max(2)[..., None] + np.abs(t[3])


def report(ck, what, err, lim, text, dd):
    if not (np.isfinite(err).all() and (err <= lim).all()):
        r = np.where(np.isfinite(err), err / np.maximum(lim, 1e-300), np.inf)
        w = np.unravel_index(np.argmax(r), err.shape)
        ck.violation(what, '%s is not balanced: worst at %s, imbalance %g where rounding allows %g\n%s' % (what, w, err[w], lim[w], text),
                     cases.replay_files(dd))
        return False
    return True


def cells(ck, exe, i):
    rng = random.Random('C18/c/%d/%d' % (ck.seed, i))
    mdesc, m = cases.gen_mesh(rng, cases.sz(rng, i, ['tiny', 'small', 'small', 'mid'], 13))
    d = cases.gen_deck(rng, iterMax=rng.choice([1, 2, 2, 3, 4]))
    for k in '12':
        d['sigmaT' + k] = rng.choice([0.0, 1e-6, 0.01, 0.5, 1.0, 7.0, 100.0]) * (0.5 + rng.random())
        d['sigmaS' + k] = d['sigmaT' + k] * rng.choice([0.0, 0.5, 0.9, 1.0])
    nr = cases.gen_ranks(rng, m)
    th = cases.gen_threads(rng, m, d, nr)
    pv = ml.random_partition(rng, m, nr)
    pr = cases.problem(m, d)
    text = cases.describe(m, mdesc, nr, th, d)
    dd = cases.write_case(ck, 'c%d' % i, m, pv, nr, dict(d, iterMax=d['iterMax'] - 1), rng, 'prev.deck')
    open(dd + '/x.deck', 'w').write(tl.deck_text(d))
    prev = None
    for deck in (['prev.deck'] if d['iterMax'] > 1 else []) + ['x.deck']:
        r = cases.run_case(exe, dd, nr, th, deck)
        if r.err:
            ck.violation(r.err, 'valid problem failed: %s\n%s' % (text, r.out[-1500:]), cases.replay_files(dd))
            return
        prev, psi = (psi if deck == 'x.deck' and d['iterMax'] > 1 else None), r.psi
    if psi.shape != (len(m.cells), len(pr.dirs), 4, d['nGroups']):
        ck.violation('shape', 'psi has shape %s: %s' % (psi.shape, text), cases.replay_files(dd))
        return
    if prev is None:
        prev = np.zeros_like(psi)
    phi = pr.phi(prev)
    sphi = pr.phi(np.abs(prev))
    o, n, c, e = terms(pr, psi, phi)
    lim = TOL * size(pr, psi, sphi) + 1e-300
    # a local solve is accurate relative to the whole cell, so are its balances
    mag = (np.abs(pr.a).sum(2) + pr.sT[:, None] * pr.geo.V[:, None])[..., None]
    lim = lim + mag * (1e-10 * np.abs(psi).max(2) + 1e-15 * np.abs(psi).max())
    ok = report(ck, 'cell', np.abs(o - n + c - e), lim, text, dd)
    if ok:
        # in total: every face between two cells cancels
        g = pr.geo
        bd = g.nb < 0
        leak = 0.0
        for k in range(4):
            own = psi[:, :, [j for j in range(4) if j != k], :].mean(2)
            leak = leak + (np.maximum(pr.a[:, :, k], 0)[..., None] * own)[bd[:, k]].sum(0)
        report(ck, 'total', np.abs(leak + c.sum(0) - e.sum(0)), lim.sum(0), text, dd)
    ck.case((mdesc, nr, th, sorted(d.items())), float(np.abs(psi).max()) > 0,
            {'case': text, 'emission': float(e.sum()), 'collisions': float(c.sum()), 'largest imbalance': float(np.abs(o - n + c - e).max())})
    ck.count('cell, direction and group balances', o.size)
    ck.count('iterate %d' % d['iterMax'])
    tl.shutil.rmtree(dd)


def converged(ck, exe, i):
    rng = random.Random('C18/t/%d/%d' % (ck.seed, i))
    st = TYPES[i % len(TYPES)]
    mdesc, m = cases.gen_mesh(rng, cases.sz(rng, i, ['tiny', 'small', 'small'], 13))
    d = cases.gen_deck(rng, SweepType=st, SourceIteration=['true', 'false'][(i // len(TYPES)) % 2], snOrder=rng.choice([2, 2, 4]),
                       iterMax=3000, errMax=1e-13, DD_IterMax=3000, DD_ErrMax=1e-13)
    for k in '12':
        d['sigmaS' + k] = d['sigmaT' + k] * rng.choice([0.0, 0.3, 0.6])
    nr = cases.gen_ranks(rng, m)
    th = cases.gen_threads(rng, m, d, nr)
    pv = np.asarray(ml.random_partition(rng, m, nr))
    pr = cases.problem(m, d)
    text = cases.describe(m, mdesc, nr, th, d)
    dd = cases.write_case(ck, 't%d' % i, m, pv, nr, d, rng)
    r = cases.run_case(exe, dd, nr, th, timeout=90)
    if r.err:
        ck.violation('%s/%s' % (r.err, st), 'valid problem failed: %s\n%s' % (text, r.out[-1500:]), cases.replay_files(dd))
        return
    psi = r.psi
    if psi.shape != (len(m.cells), len(pr.dirs), 4, d['nGroups']):
        ck.violation('shape', 'psi has shape %s: %s' % (psi.shape, text), cases.replay_files(dd))
        return
    g = pr.geo
    # one balance for every rank and group: leakage through its whole surface,
    # absorption, fixed source; scattering takes no part
    w = pr.wts
    worst = 0.0
    for q in range(nr):
        mine = pv == q
        net = np.zeros(psi.shape[3])
        scale = 0.0
        for k in range(4):
            nb = g.nb[:, k]
            surf = mine & ((nb < 0) | ~mine[np.maximum(nb, 0)])
            for c in np.nonzero(surf)[0]:
                idx = [j for j in range(4) if j != k]
                own = psi[c][:, idx, :].mean(1)
                up = psi[nb[c]][:, [g.nbv[c, k, j] for j in idx], :].mean(1) if nb[c] >= 0 else np.zeros_like(own)
                a = pr.a[c, :, k][:, None]
                cur = (w[:, None] * (np.maximum(a, 0) * own - np.maximum(-a, 0) * up))
                net += cur.sum(0)
                scale += np.abs(cur).sum()
        phim = pr.phi(psi).mean(1)
        ab = ((pr.sT - pr.sS) * g.V)[mine, None] * phim[mine]
        src = np.einsum('a,ca->c', w, pr.q.mean(2)) * g.V
        # the angular gradient part of the source cancels by quadrature only
        scale += (pr.sT * g.V)[mine].dot(np.abs(phim).max(1)[mine]) + np.einsum('a,ca->c', w, np.abs(pr.q).mean(2)).dot(g.V * mine)
        err = np.abs(net + ab.sum(0) - src[mine].sum())
        worst = max(worst, float(err.max() / (scale or 1)))
        if not report(ck, 'rank', err, np.full(err.shape, 1e-8 * scale + 1e-300), 'rank %d of converged %s' % (q, text), dd):
            break
        ck.count('rank balances of converged solutions')
    ck.case((mdesc, nr, th, sorted(d.items())), float(np.abs(psi).max()) > 0, {'case': text, 'largest relative imbalance of a rank': worst})
    ck.count('converged by ' + st)
    tl.shutil.rmtree(dd)


def main():
    ck = tl.Check('C18')
    ck.rule = ('a case is one random (mesh, partition, ranks, threads, deck); non-trivial if the flux is not identically '
               'zero; distinct by mesh shape and full deck')
    ck.assumptions = ['meshes whose upwind relation is acyclic for every direction',
                      'scattering ratio at most 0.6 where convergence is needed']
    exe = tl.build_sweep('plain')
    tl.pmap(lambda i: cells(ck, exe, i), range(ck.n(120, 2500)))
    tl.pmap(lambda i: converged(ck, exe, i), range(ck.n(54, 900)))
    return ck.finish()
