"""C17: local cell solvers solve their 4x4 systems and agree.

The real update of single (cell, angle) pairs is driven with known inflow,
source and cross section; an independent assembly of the local equations judges
the result of each of the four solvers."""
import random
import numpy as np
import cases
import meshlib as ml
import refsn
import tycholib as tl
import travlog as T

SCALE = [1, 1, 1, 1e-3, 1e3, 0, 1, 10]
NAMES = ['Original', 'NoPivot', 'CramerGlu', 'CramerIntel']


def F(seed, kind, c, v, a, g):
    h = T.mix(seed * 1000003 + kind)
    h = T.mix(h ^ (c * 31 + v))
    h = T.mix(h ^ (a * 17 + g * 1009))
    return ((h >> 11) / 9007199254740992.0 * 2.0 - 1.0) * SCALE[h & 7]


def one(ck, exe, i):
    rng = random.Random('C17/%d/%d' % (ck.seed, i))
    desc, m = cases.gen_mesh(rng, rng.choice(['tiny', 'small']))
    if rng.random() < 0.4:
        # thin cells and other sizes
        m.nodes = m.nodes * np.array([1.0, rng.choice([1.0, 0.1, 1e-2]), 1.0]) * rng.choice([1.0, 1e-4, 1e4])
    N = rng.choice([2, 2, 4, 6])
    G = rng.choice([1, 2, 5])
    nr = min(rng.choice([1, 1, 2, 3]), len(m.cells))
    seed = rng.randrange(1 << 30)
    pv = ml.random_partition(rng, m, nr)
    dd = cases.write_case(ck, i, m, pv, nr, {}, rng)
    nq = 60
    args = ['mesh=m.pmesh', 'sn=%d' % N, 'groups=%d' % G, 'seed=%d' % seed, 'n=%d' % nq]
    r = tl.run_mpi(exe, args, nr, 1, cwd=dd)
    text = '%s %d cells, %d ranks, %s' % (desc, len(m.cells), nr, ' '.join(args))
    ck.case(text, True, text)
    if r.timeout or r.rc != 0:
        ck.violation('hang' if r.timeout else 'abort', 'local solves failed: %s\n%s' % (text, r.out[-1200:]), cases.replay_files(dd))
        return
    topo = T.Topo(m, N)
    geo = topo.geo
    mass = (np.ones((4, 4)) + np.eye(4)) / 20.0
    worst = 0.0
    for q in range(nr):
        for l in open('%s/solve.%d' % (dd, q)):
            w = l.split()
            c, a, s, k = int(w[1]), int(w[2]), float.fromhex(w[3]), int(w[4])
            x = np.array([float.fromhex(y) for y in w[5:5 + 4 * G]]).reshape(G, 4)
            ck.count('solves by ' + NAMES[k])
            if w[-1] != '0':
                ck.violation('inputs', '%s solve of cell %d angle %d changed %s\n%s' % (NAMES[k], c, a, [
                    n for b, n in ((1, 'flux of others'), (2, 'the source'), (4, 'the boundary flux'), (8, 'the cross section'))
                    if int(w[-1]) & b], text), cases.replay_files(dd))
            om = topo.dirs[a]
            ar = geo.S[c] @ om
            ar = np.where(np.abs(ar) < 1e-10 * np.linalg.norm(geo.S[c], axis=1), 0.0, ar)
            A = (ar / 12.0)[:, None] + s * geo.V[c] * mass
            for f in range(4):
                if ar[f] > 0:
                    for p in range(4):
                        for o in range(4):
                            if p != f and o != f:
                                A[p, o] += ar[f] / 12.0 * (2 if p == o else 1)
            sv = np.linalg.svd(A, compute_uv=False)
            cond = sv[0] / sv[-1]
            for g in range(G):
                b = geo.V[c] * (mass @ [F(seed, 2, c, v, a, g) for v in range(4)])
                mag = geo.V[c] * (mass @ [abs(F(seed, 2, c, v, a, g)) for v in range(4)])
                for f in range(4):
                    nb = int(geo.nb[c, f])
                    if ar[f] < 0 and nb >= 0:
                        y = np.zeros(4)
                        for v in range(4):
                            if v != f:
                                y[v] = (F(seed, 0, nb, int(geo.nbv[c, f, v]), a, g) if pv[nb] == q else
                                        F(seed, 1, c * 4 + f, v, a, g))
                        for p in range(4):
                            if p != f:
                                b[p] -= ar[f] / 12.0 * (y.sum() + y[p])
                                mag[p] += abs(ar[f]) / 12.0 * (np.abs(y).sum() + abs(y[p]))
                ex = np.linalg.solve(A, b)
                # explicit inverses lose norm(A)^3/det, elimination the condition number
                bound = (sv[0] ** 3 / np.prod(sv) if k >= 2 else 1.0 / sv[-1]) * np.linalg.norm(mag) + cond * np.linalg.norm(ex)
                e = np.abs(x[g] - ex).max()
                if bound > 0 and np.isfinite(e):
                    worst = max(worst, e / bound)
                if not (np.isfinite(x[g]).all() and e <= 4e-14 * bound + 1e-300):
                    ck.violation('solution/' + NAMES[k], '%s: cell %d angle %d group %d sigma %g: flux %s instead of %s (condition %.1e)\n%s' % (
                        NAMES[k], c, a, g, s, x[g], ex, cond, text), cases.replay_files(dd))
    with ck.lock:
        ck.extra['worst error over bound'] = max(ck.extra.get('worst error over bound', 0.0), float(worst))
    tl.shutil.rmtree(dd)


def main():
    ck = tl.Check('C17')
    ck.rule = ('a case is one mesh with 60 random (cell, direction, cross section, source, inflow), each solved by all four '
               'solvers in random order; distinct by mesh and seed')
    ck.assumptions = ['cross sections from 0 to 2e6, cells from 1e-4 to 1e4 of the usual size with aspect ratios to 100']
    exe = tl.build_sweep('plain', [tl.HARN + '/h_solve.cc'], 'h_solve', main=False)
    tl.pmap(lambda i: one(ck, exe, i), range(ck.n(60, 1200)))
    return ck.finish()
