"""Random problems: mesh, partition, deck, and how to run them."""
import os
import numpy as np
import meshlib as ml
import refsn
import tycholib as tl


def gen_mesh(rng, size='small', kind=None, mat=None):
    """-> (description, SMesh)"""
    desc, m = _gen_mesh(rng, size, kind, mat)
    if rng.random() < 0.12:
        # the same body much smaller or larger, around the centre of the hat
        f = rng.choice([1e-3, 1e-2, 0.1, 0.3, 10.0])
        m.nodes = 50.0 + f * (m.nodes - 50.0)
        desc += ' scaled %g' % f
    if rng.random() < 0.15 and not desc.startswith('kuhnj'):
        d = grazing(rng, m)
        if d:
            desc += d
    return desc, m


def sz(rng, i, choices, every):
    """size of the i-th case: one in so many is large"""
    r = rng.choice(choices)
    return 'large' if i % every == every - 1 else r


def wide(rng, i, every):
    """one in so many cases has a tiny mesh, but many directions or groups
    -> None or (description, mesh, order, groups)"""
    if i % every != every // 2:
        return None
    desc, m = gen_mesh(rng, 'tiny', 'delaunay')
    N, G = rng.choice([(12, 1), (16, 1), (12, 2), (2, 17), (2, 40), (4, 11), (20, 1)])
    return desc, m, N, G


def _rot(v):
    a = np.linalg.norm(v)
    if a == 0:
        return np.eye(3)
    k = v / a
    K = np.array([[0, -k[2], k[1]], [k[2], 0, -k[0]], [-k[1], k[0], 0]])
    return np.eye(3) + np.sin(a) * K + (1 - np.cos(a)) * (K @ K)


def grazing(rng, m):
    """Rotate the body about the centre of the hat so that one of its inner
    faces is almost, but not quite, parallel to a direction of each of three
    quadrature sets: Omega.n is a given tiny number."""
    geo = refsn.Geometry(m)
    inner = [(c, k) for c in range(geo.C) for k in range(4) if geo.nb[c, k] >= 0]
    if not inner:
        return None
    for _ in range(10):
        fs = [rng.choice(inner) for _ in range(3)]
        n = [geo.S[c, k] / np.linalg.norm(geo.S[c, k]) for c, k in fs]
        dl = np.array([rng.choice([-1, 1]) * 10.0 ** -rng.uniform(4, 9.5) for _ in fs])
        om = []
        for N, nn in zip((2, 4, 6), n):
            d = refsn.quadrature(N)[0]
            om.append(min(rng.sample(list(d), 4), key=lambda x: abs(x @ nn)))
        # Newton, composing small rotations
        R = np.eye(3)
        for _ in range(30):
            f = np.array([(R @ a) @ o for a, o in zip(n, om)]) - dl
            J = np.array([np.cross(R @ a, o) for a, o in zip(n, om)])
            if np.abs(f).max() < 1e-15 or np.linalg.cond(J) > 1e6:
                break
            v = -np.linalg.solve(J, f)
            R = _rot(v / max(1.0, 2 * np.linalg.norm(v))) @ R
        if (np.abs(f) < 0.02 * np.abs(dl)).all():
            break
    else:
        return None
    m.nodes = 50.0 + (m.nodes - 50.0) @ R.T
    geo = refsn.Geometry(m)
    got = [geo.S[c, k] @ o / np.linalg.norm(geo.S[c, k]) for (c, k), o in zip(fs, om)]
    return ' grazing %s' % ','.join('%.0e' % x for x in got)


def _gen_mesh(rng, size, kind, mat):
    mat = mat or rng.choice(['mix', 'mix', 'mix', 'one', 'two'])
    # the hat lives within 30 of (50,50,50); a small body lies inside of it
    sz, lo = rng.choice([(100.0, 0.0), (100.0, 0.0), (50.0, 25.0), (70.0, 20.0)])
    if size == 'large':
        # some hundred to some thousand cells: an affine image of a regular
        # grid, which keeps the upwind relations acyclic
        n = [rng.randint(3, 7) for _ in range(3)]
        m = ml.kuhn_mesh(rng, n[0], n[1], n[2], 80.0, 0.0, mat, lo=10.0)
        while True:
            A = np.array([[(i == j) + rng.uniform(-0.35, 0.35) for j in range(3)] for i in range(3)])
            if np.linalg.det(A) > 0.3:
                break
        m.nodes = 50.0 + (m.nodes - 50.0) @ A.T
        return 'large%s' % n, m
    if kind is None:
        kind = rng.choice(['delaunay'] * 4 + ['kuhn', 'kuhnj', 'single', 'disjoint'])
    if kind == 'delaunay':
        n = {'tiny': rng.randint(1, 4), 'small': rng.randint(2, 14), 'mid': rng.randint(15, 40)}[size]
        return '%s%d' % (kind, n), ml.delaunay_mesh(rng, n, sz, mat, lo=lo)
    if kind in ('kuhn', 'kuhnj'):
        hi = {'tiny': 1, 'small': 2, 'mid': 3}[size]
        n = [rng.randint(1, hi) for _ in range(3)]
        # a small grid has no node inside of the hat unless it is a small body
        sz, lo = rng.choice([(50.0, 25.0), (50.0, 25.5), (70.0, 20.0), (40.0, 30.0)])
        for _ in range(20):
            m = ml.kuhn_mesh(rng, n[0], n[1], n[2], sz, 0.0 if kind == 'kuhn' else 0.2, mat, lo=lo)
            # only acyclic upwind relations are within the code's contract
            if kind == 'kuhn' or all(refsn.Problem(m, N, 1, (1, 1), (0, 0)).acyclic() for N in (2, 4, 6)):
                return '%s%s' % (kind, n), m
    if kind == 'disjoint':
        a = ml.delaunay_mesh(rng, rng.randint(1, 4), 50.0, mat, lo=25.0)
        b = ml.delaunay_mesh(rng, rng.randint(1, 3), 50.0, mat, lo=25.0)
        return kind, ml.disjoint(rng, a, b, shift=rng.choice([53.0, 300.0]))
    return 'single', ml.single_tet(rng, 60.0, mat) if False else _central_tet(rng, mat)


def _central_tet(rng, mat):
    m = ml.single_tet(rng, 40.0, mat)
    m.nodes = m.nodes + 30.0
    return m


def gen_deck(rng, **over):
    sT1, sT2 = rng.choice([0.01, 0.3, 1.0, 3.0]) * (0.5 + rng.random()), rng.choice([0.01, 0.3, 1.0, 3.0]) * (0.5 + rng.random())
    if rng.random() < 0.12:
        # one of the materials is void
        sT1, sT2 = rng.choice([(0.0, sT2), (sT1, 0.0)])
    d = dict(
        snOrder=rng.choice([2, 2, 4, 4, 6]), nGroups=rng.choice([1, 2, 3]),
        iterMax=rng.choice([1, 2, 3]), errMax=1e-300,
        sigmaT1=sT1, sigmaT2=sT2, sigmaS1=sT1 * rng.choice([0.0, 0.3, 0.9]), sigmaS2=sT2 * rng.choice([0.0, 0.3, 0.9]),
        maxCellsPerStep=rng.choice([1, 2, 7, 20, 100, 100000]),
        intraAngleP=rng.randrange(5), interAngleP=rng.randrange(3),
        SweepType=rng.choice(['TraverseGraph', 'OriginalTycho1', 'OriginalTycho2']),
        MPIType=rng.choice(['TychoTwoSided', 'CapsaicinTwoSided']),
        GaussElim=rng.choice(['Original', 'NoPivot', 'CramerGlu', 'CramerIntel']))
    d.update(over)
    # decks print with repr, as a user would write them
    return d


def problem(m, d):
    return refsn.Problem(m, d['snOrder'], d['nGroups'], (d['sigmaT1'], d['sigmaT2']), (d['sigmaS1'], d['sigmaS2']))


def gen_ranks(rng, m, hi=4):
    return min(rng.choice([1, 2, 2, 3, 3, 4, 4, 5][:hi * 2]), max(1, len(m.cells)))


def gen_threads(rng, m, d, nr):
    return tame(m, d, nr, rng.choice([1, 1, 1, 2, 3]))


def tame(m, d, nr, th):
    """The threads of OriginalTycho2 spin while they wait: no more of them than
    cores, and not too many steps.  May change the deck -> threads"""
    if d['SweepType'] == 'OriginalTycho2':
        th = min(th, max(1, 8 // nr))
        if th > 1 and len(m.cells) * d['snOrder'] ** 2 > 2000:
            d['maxCellsPerStep'] = max(20, d['maxCellsPerStep'])
    return th


class Outcome:
    pass


def write_case(ck, name, m, pv, nranks, d, rng, deckname='x.deck', shuffle=True, gaps=None):
    """-> directory with m.pmesh and the deck"""
    dd = ck.sub(name)
    parts = ml.make_parts(m, pv, nranks, rng if shuffle else None)
    if shuffle:
        for P in parts:
            for f in P.faces:
                # the order of the nodes of a face is not specified, nor whether
                # two partitions agree on it
                n = f[2:5]
                rng.shuffle(n)
                f[2:5] = n
    ml.write_pmesh(os.path.join(dd, 'm.pmesh'), parts, gaps)
    with open(os.path.join(dd, deckname), 'w') as f:
        f.write(tl.deck_text(d))
    return dd


def run_case(exe, dd, nranks, threads, deckname='x.deck', out='out.psi', timeout=60, env=None, prefix=()):
    p = os.path.join(dd, out)
    if os.path.exists(p):
        os.unlink(p)
    r = tl.run_mpi(exe, ['m.pmesh', deckname], nranks, threads, env=env, cwd=dd, timeout=timeout, prefix=prefix)
    r.psi = None
    r.err = None
    if r.timeout:
        r.err = 'hang'
    elif r.rc != 0:
        r.err = 'abort'
    elif os.path.exists(p):
        try:
            r.psi = ml.read_psi(p)
        except AssertionError as e:
            r.err = 'bad-output: %s' % e
    else:
        r.err = 'no-output'
    return r


def replay_files(dd, extra=None):
    f = {}
    for n in os.listdir(dd):
        p = os.path.join(dd, n)
        if os.path.isfile(p) and os.path.getsize(p) < 2000000 and not n.endswith('.psi'):
            f[n] = p if False else open(p, 'rb').read()
    f.update(extra or {})
    return f


def describe(m, mdesc, nranks, threads, d):
    return '%s (%d cells) ranks=%d threads=%d deck=%s' % (mdesc, len(m.cells), nranks, threads, d)
