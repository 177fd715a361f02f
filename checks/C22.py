"""C22: the built-in test problem.

The source, the cross sections and the error norm computed by the real code
are recorded, on every rank, and compared with the closed form."""
import os
import random
import re
import struct
import numpy as np
import cases
import meshlib as ml
import refsn
import tycholib as tl

WRAP = '-Wl,--wrap=_ZN7Problem9getSourceER7PsiData'
TYPES = ['TraverseGraph', 'OriginalTycho1', 'OriginalTycho2', 'PBJ', 'PBJOuter', 'PBJSI', 'Schur', 'SchurOuter', 'SchurKrylov']


def mix(x):
    x = x + np.uint64(0x9e3779b97f4a7c15)
    x = (x ^ (x >> np.uint64(30))) * np.uint64(0xbf58476d1ce4e5b9)
    x = (x ^ (x >> np.uint64(27))) * np.uint64(0x94d049bb133111eb)
    return x ^ (x >> np.uint64(31))


def encoded(seed, C, A, G):
    with np.errstate(over='ignore'):
        k = mix(np.array([seed], dtype=np.uint64))[0]
        c = np.arange(C, dtype=np.uint64)[:, None, None, None] << np.uint64(32)
        a = np.arange(A, dtype=np.uint64)[None, :, None, None] << np.uint64(16)
        v = np.arange(4, dtype=np.uint64)[None, None, :, None] << np.uint64(8)
        g = np.arange(G, dtype=np.uint64)[None, None, None, :]
        return (mix(k ^ (c ^ a ^ v ^ g)) >> np.uint64(11)).astype(float) / 9007199254740992.0


def special(rng, m):
    """move the mesh so that one of its nodes is at a place of interest"""
    u = np.array([rng.gauss(0, 1) for _ in range(3)])
    u /= np.linalg.norm(u)
    place = rng.choice(['centre', 'axis rim', 'rim', 'near centre', 'on axis', 'just outside', 'just inside', 'none', 'none'])
    t = {'centre': (50, 50, 50), 'axis rim': rng.choice([(80, 50, 50), (20, 50, 50), (50, 80, 50), (50, 50, 20)]),
         'rim': rng.choice([(68, 74, 50), (26, 50, 32), (50, 68, 26), (60, 70, 70), (30, 40, 30)]),
         'near centre': 50 + u * 10.0 ** -rng.uniform(1, 12), 'on axis': (50, 50 + rng.uniform(-40, 40), 50),
         'just outside': 50 + u * (30 + 10.0 ** -rng.uniform(1, 9)), 'just inside': 50 + u * (30 - 10.0 ** -rng.uniform(1, 9)),
         'none': None}[place]
    if t is not None:
        i = rng.randrange(len(m.nodes))
        # the others go on a grid, so that the shift does not round them
        m.nodes = np.round(m.nodes * 2.0 ** 20) / 2.0 ** 20 + (np.array(t, dtype=float) - np.round(m.nodes[i] * 2.0 ** 20) / 2.0 ** 20)
        m.nodes[i] = t
    return place


def read(dd, name, nr, C, A, G):
    """-> sigT, sigS (C), source (C,A,4,G); None where no rank wrote"""
    sT, sS, q = np.full(C, np.nan), np.full(C, np.nan), np.full((C, A, 4, G), np.nan)
    seen = np.zeros(C, dtype=int)
    for r in range(nr):
        p = '%s/%s.%d' % (dd, name, r)
        if not os.path.exists(p):
            return None
        b = open(p, 'rb').read()
        rec = 24 + 8 * A * 4 * G
        if len(b) % rec:
            return None
        for o in range(0, len(b), rec):
            gc, t, s = struct.unpack_from('<Qdd', b, o)
            sT[gc], sS[gc] = t, s
            seen[gc] += 1
            q[gc] = np.frombuffer(b, '<f8', A * 4 * G, o + 24).reshape(A, 4, G)
    return sT, sS, q, seen


def verify(ck, what, m, d, got, text, files):
    sT, sS, q, seen = got
    mats = np.asarray(m.mats)
    pr = cases.problem(m, d)
    if (seen != 1).any():
        ck.violation('cells', '%s: cells not set up once: %s' % (what, text), files)
        return
    wt = np.where(mats == 1, d['sigmaT1'], d['sigmaT2'])
    ws = np.where(mats == 1, d['sigmaS1'], d['sigmaS2'])
    for n, a, b in (('total', sT, wt), ('scattering', sS, ws)):
        if (a != b).any():
            c = int(np.argmax(a != b))
            ck.violation('sigma', '%s: %s cross section of cell %d (material %d) is %r, not %r\n%s' % (what, n, c, mats[c], a[c], b[c], text), files)
            return
    r = np.linalg.norm(m.nodes[m.cells] - 50.0, axis=-1)
    # not decidable where the distance rounds across the rim
    exact = np.abs(r - 30.0) > 1e-11
    w = m.nodes[m.cells] - 50.0
    on = (r == 30.0) & (w == np.round(w)).all(axis=-1)
    dec = exact | on
    want = pr.q[..., None] + np.zeros((1, 1, 1, d['nGroups']))
    tol = 1e-13 * (1 + np.maximum(wt, ws))[:, None, None, None] + 4e-15 * 50 / np.maximum(r, 1e-30)[:, None, :, None] / 30.0
    bad = ~(np.abs(q - want) <= tol) & dec[:, None, :, None]
    ck.count('source values decided', int(dec.sum()) * q.shape[1] * d['nGroups'])
    ck.count('vertices inside the hat', int((r < 30).sum()))
    ck.count('vertices on the rim', int(on.sum()))
    ck.count('vertices at the centre', int((r == 0).sum()))
    ck.count('vertices outside', int((r > 30).sum()))
    if bad.any():
        x = np.unravel_index(np.argmax(bad), bad.shape)
        ck.violation('source', '%s: source at (cell,angle,vertex,group)=%s, distance %r from the centre, is %r, not %r\n%s' % (
            what, x, r[x[0], x[2]], q[x], want[x], text), files)
    if not np.isfinite(q).all():
        ck.violation('not-finite', '%s: source is not finite: %s' % (what, text), files)


def hat_error(m, psi):
    c = np.linalg.norm(m.nodes[m.cells].mean(axis=1) - 50.0, axis=-1)
    hat = np.where(c <= 30.0, 1 - c / 30.0, 0.0)
    avg = psi.mean(axis=2)
    n = (avg ** 2).sum()
    return np.sqrt(((avg - hat[:, None, None]) ** 2).sum() / n) if n > 0 else None


def gen(rng, i):
    mdesc, m = cases.gen_mesh(rng, cases.sz(rng, i, ['tiny', 'small', 'small', 'mid'], 17))
    place = special(rng, m)
    d = cases.gen_deck(rng)
    for k in '12':
        if rng.random() < 0.3:
            d['sigmaT' + k] = rng.choice([0.0, 1e-7, 0.25, 100.0, 1e4])
            d['sigmaS' + k] = d['sigmaT' + k] * rng.choice([0.0, 0.3, 1.0])
    return '%s, a node %s' % (mdesc, place), m, d


def direct(ck, exe, i):
    rng = random.Random('C22/d/%d/%d' % (ck.seed, i))
    mdesc, m, d = gen(rng, i)
    nr, th = cases.gen_ranks(rng, m), rng.choice([1, 2])
    pv = ml.random_partition(rng, m, nr)
    C, A, G = len(m.cells), 2 * d['snOrder'] ** 2, d['nGroups']
    dd = cases.write_case(ck, 'd%d' % i, m, pv, nr, d, rng)
    seed, n = rng.randrange(10 ** 6), 2
    args = ['mesh=m.pmesh', 'sn=%d' % d['snOrder'], 'groups=%d' % G, 'seed=%d' % seed, 'n=%d' % n]
    args += ['%s=%r' % (a, d[b]) for a, b in (('sT1', 'sigmaT1'), ('sS1', 'sigmaS1'), ('sT2', 'sigmaT2'), ('sS2', 'sigmaS2'))]
    r = tl.run_mpi(exe, args, nr, th, cwd=dd)
    text = cases.describe(m, mdesc, nr, th, d)
    files = cases.replay_files(dd)
    ck.case((mdesc, C, nr, sorted(d.items())), True, text)
    if r.timeout or r.rc:
        ck.violation('hang' if r.timeout else 'abort', 'setting up the problem fails: %s\n%s' % (text, r.out[-1000:]), files)
        return
    got = read(dd, 'prob', nr, C, A, G)
    if got is None:
        raise tl.HarnessError('no records: ' + text)
    verify(ck, 'getSource', m, d, got, text, files)
    cen = np.linalg.norm(m.nodes[m.cells].mean(axis=1) - 50.0, axis=-1)
    for q in range(nr):
        e = [float(x) for x in open('%s/err.%d' % (dd, q)).read().split()]
        for s in range(n):
            want = hat_error(m, encoded(seed + s, C, A, G) - (0.5 if s % 2 == 0 else 0.0))
            ck.count('error norms')
            if not abs(e[s] - want) <= 1e-11 * want:
                ck.violation('error', 'rank %d: error norm is %r, not %r\n%s' % (q, e[s], want, text), files)
                return
    tl.shutil.rmtree(dd)


def solver(ck, exe, i):
    rng = random.Random('C22/s/%d/%d' % (ck.seed, i))
    mdesc, m, d = gen(rng, i)
    si = rng.choice(['true', 'false'])
    d.update(SweepType=TYPES[i % len(TYPES)], SourceIteration=si, iterMax=rng.choice([1, 2, 5]), DD_IterMax=rng.choice([2, 5]), errMax=1e-6,
             DD_ErrMax=1e-6)
    nr, th = cases.gen_ranks(rng, m), rng.choice([1, 2])
    pv = ml.random_partition(rng, m, nr)
    C, A, G = len(m.cells), 2 * d['snOrder'] ** 2, d['nGroups']
    dd = cases.write_case(ck, 's%d' % i, m, pv, nr, d, rng)
    r = cases.run_case(exe, dd, nr, th, env={'MON_PROBLEM': dd + '/prob'})
    text = cases.describe(m, mdesc, nr, th, d)
    files = cases.replay_files(dd)
    if r.err:
        ck.violation('%s/sweep.x' % r.err, 'valid problem fails: %s\n%s' % (text, r.out[-1000:]), files)
        return
    ck.case((mdesc, C, nr, sorted(d.items())), np.abs(r.psi).max() > 0, text)
    got = read(dd, 'prob', nr, C, A, G)
    if got is None:
        ck.count('source not made where the monitor hooks in')
    else:
        ck.count('solves whose source was recorded')
        verify(ck, 'sweep.x', m, d, got, text, files)
    want = hat_error(m, r.psi)
    mt = re.search(r'L2 Relative Error: (\S+)', r.out)
    if not mt:
        ck.violation('not-printed', 'no error printed: ' + text, files)
    elif want is not None:
        ck.count('printed errors')
        if not abs(float(mt.group(1)) - want) <= 2e-6 * want:
            ck.violation('error', 'printed error is %s, that of the flux file is %g\n%s' % (mt.group(1), want, text), files)
    tl.shutil.rmtree(dd)


def refused(ck, exe, i):
    """materials other than 1 and 2"""
    rng = random.Random('C22/r/%d/%d' % (ck.seed, i))
    mdesc, m = cases.gen_mesh(rng, cases.sz(rng, i, ['tiny', 'small'], 17))
    d = cases.gen_deck(rng)
    nr = cases.gen_ranks(rng, m)
    pv = ml.random_partition(rng, m, nr)
    bad = rng.choice([0, 3, 4, 2 ** 32 + 1, 2 ** 63, 2 ** 64 - 1, 257])
    m.mats = np.array(m.mats, dtype=np.uint64)
    m.mats[rng.randrange(len(m.cells))] = bad
    dd = cases.write_case(ck, 'r%d' % i, m, pv, nr, d, rng)
    r = cases.run_case(exe, dd, nr, 1)
    text = 'material %d in one cell, ' % bad + cases.describe(m, mdesc, nr, 1, d)
    ck.case(('material', bad, mdesc, nr), True)
    ck.count('bad materials')
    if r.timeout:
        ck.violation('hang', text, cases.replay_files(dd))
    elif r.rc == 0:
        ck.violation('accepted', 'not refused: ' + text, cases.replay_files(dd))
    tl.shutil.rmtree(dd)


def main():
    ck = tl.Check('C22')
    ck.rule = 'a case is one random (mesh moved to a place of interest, materials, cross sections, partition, deck)'
    ck.assumptions = ['vertices whose distance is within 1e-11 of 30 are only decided if it is exactly 30']
    h = tl.build_sweep('plain', [tl.HARN + '/h_prob.cc'], 'h_prob', main=False)
    s = tl.build_sweep('plain', [tl.HARN + '/mon_problem.cc'], 'sweep_prob', link=[WRAP])
    tl.pmap(lambda i: direct(ck, h, i), range(ck.n(90, 1500)))
    tl.pmap(lambda i: solver(ck, s, i), range(ck.n(45, 800)))
    tl.pmap(lambda i: refused(ck, s, i), range(ck.n(12, 60)))
    return ck.finish()
