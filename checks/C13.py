"""C13: what every rank reports about its mesh is what the mesh file implies.

A monitor linked with the real mesh code writes everything the getters return
on every rank; the geometry and topology are recomputed from the serial mesh."""
import os
import random
import numpy as np
import cases
import meshlib as ml
import refsn
import tycholib as tl

NONE = 2 ** 64 - 1


def mesh_for(rng, i):
    k = rng.random()
    f = tl.UTIL + '/cube-208.smesh'
    if k < 0.04 and os.path.exists(f):
        m = ml.read_smesh(f)
        m.mats = np.array(ml.mats_for(rng, len(m.cells), 'mix'))
        return 'cube-208', m
    if k < 0.6:
        desc, m = cases.gen_mesh(rng, cases.sz(rng, i, ['tiny', 'small', 'small'], 29))
    else:
        n = [rng.randint(1, 2) for _ in range(3)]
        desc, m = 'kuhn%s' % n, ml.kuhn_mesh(rng, n[0], n[1], n[2], 100.0, rng.choice([0.0, 0.0, 0.3]), 'mix')
    if rng.random() < 0.3:
        s = rng.choice([1e-4, 1e-2, 1e3, 1e6])
        o = np.array([rng.choice([0.0, -50.0, 7.0]) * s for _ in range(3)])
        m.nodes = m.nodes * s + o
        desc += ' scaled %g' % s
    elif rng.random() < 0.15:
        # a very small body far from the origin: nodes differ in their last digits only
        s = 10.0 ** -rng.uniform(6, 9)
        m.nodes = 50.0 + (m.nodes - m.nodes.mean(axis=0)) * s / 100
        desc += ' of size %.0e' % s
    # anisotropic
    if rng.random() < 0.15:
        m.nodes = m.nodes * np.array([1.0, 10.0, 0.1])
        desc += ' stretched'
    return desc, m


def compare(m, dumps, N, pv):
    """-> list of (key, text); counts"""
    bad = []
    geo = refsn.Geometry(m)
    area = np.linalg.norm(geo.S, axis=-1)
    C = len(m.cells)
    dirs, wts = refsn.quadrature(N)
    # face opposite to vertex k -> global face id
    gface = np.zeros((C, 4), dtype=int)
    for c in range(C):
        for f in m.cfaces[c]:
            out = [k for k in range(4) if m.cells[c][k] not in m.fnodes[f]]
            gface[c, out[0]] = f
    R = []
    seen = {}
    for r, txt in enumerate(dumps):
        d = {'C': {}, 'F': {}, 'S': {}, 'O': {}, 'A': {}}
        lines = txt.split('\n')
        if 'END' not in lines:
            return [('dump', 'rank %d: incomplete dump' % r)], 0
        for l in lines:
            w = l.split()
            if not w:
                continue
            if w[0] == 'N':
                d['N'] = [int(x) for x in w[1:]]
            elif w[0] == 'A':
                d['A'][int(w[1])] = [float(x) for x in w[2:]]
            elif w[0] == 'C':
                d['C'][int(w[1])] = (int(w[2]), int(w[3]), float(w[4]), [float(x) for x in w[5:17]], [int(x) for x in w[17:]])
            elif w[0] == 'F':
                d['F'][(int(w[1]), int(w[2]))] = ([int(x) for x in w[3:7]], float(w[7]), [int(x) for x in w[8:]])
            elif w[0] == 'S':
                d['S'][(int(w[1]), int(w[2]))] = [int(x) for x in w[3:]]
            elif w[0] == 'O':
                d['O'][(int(w[1]), int(w[2]), int(w[3]))] = (float(w[4]), int(w[5]), int(w[6]))
        R.append(d)
        for c, rec in d['C'].items():
            g = rec[0]
            if g in seen or not 0 <= g < C:
                bad.append(('cells', 'global cell %d of rank %d is invalid or on two ranks' % (g, r)))
                return bad, 0
            seen[g] = (r, c)
    if len(seen) != C:
        return [('cells', '%d of %d cells present' % (len(seen), C))], 0
    n = 0
    shared = {}
    gsides = {}

    def err(key, *a):
        if len(bad) < 10:
            bad.append((key, ' '.join(str(x) for x in a)))
    for r, d in enumerate(R):
        if d['N'][0] != int((pv == r).sum()):
            err('cells', 'rank', r, 'has', d['N'][0], 'cells, expected', int((pv == r).sum()))
        ang = np.array([d['A'][a] for a in range(len(d['A']))])
        if len(ang) != len(dirs):
            err('angles', 'rank', r, 'has', len(ang), 'angles')
            continue
        nsides = 0
        for c, (g, mat, vol, co, nodes) in d['C'].items():
            n += 1
            if pv[g] != r:
                err('cells', 'cell', g, 'is on rank', r, 'expected', pv[g])
            if mat != m.mats[g]:
                err('material', 'cell', g, mat, 'expected', m.mats[g])
            co = np.array(co).reshape(4, 3)
            if not (co == m.nodes[m.cells[g]]).all():
                err('coords', 'cell', g, 'vertex coordinates', co.tolist(), 'expected', m.nodes[m.cells[g]].tolist())
                continue
            if not abs(vol - geo.V[g]) <= 1e-9 * geo.V[g] + 1e-14 * area[g].max() ** 1.5:
                err('volume', 'cell', g, vol, 'expected', geo.V[g])
            for k in range(4):
                (adj, adjf, adjr, side), ar, vv = d['F'][(c, k)]
                f2c, nv, c2f = vv[:3], vv[3:6], vv[6:10]
                if not abs(ar - area[g, k]) <= 1e-9 * area[g, k]:
                    err('area', 'cell', g, 'face', k, ar, 'expected', area[g, k])
                nb = geo.nb[g, k]
                if sorted(f2c) != [j for j in range(4) if j != k] or any(c2f[f2c[i]] != i for i in range(3)):
                    err('vertex-map', 'cell', g, 'face', k, 'face to cell vertices', f2c, 'cell to face vertices', c2f)
                    continue
                if nb >= 0 and pv[nb] == r:
                    if adj != seen[nb][1] or adjr != r:
                        err('neighbour', 'cell', g, 'face', k, 'neighbour', adj, 'rank', adjr, 'expected', seen[nb][1], r)
                        continue
                    back = [q for q in range(4) if geo.nb[nb, q] == g and gface[nb, q] == gface[g, k]][0]
                    if adjf != back:
                        err('neighbour-face', 'cell', g, 'face', k, 'faces', adjf, 'expected', back)
                    want = [int(geo.nbv[g, k, j]) for j in f2c]
                    if nv != want:
                        err('neighbour-vertex', 'cell', g, 'face', k, nv, 'expected', want)
                    bf2c = R[r]['F'][(seen[nb][1], back)][2][:3]
                    if [int(geo.nbv[g, k, j]) for j in f2c] != bf2c:
                        err('face-order', 'cells', g, nb, 'order the vertices of their face differently')
                    if side != NONE:
                        err('side', 'interior face', (g, k), 'has side', side)
                else:
                    if adj != NONE:
                        err('neighbour', 'cell', g, 'face', k, 'is not on rank', r, 'but has neighbour', adj)
                    want = NONE if nb < 0 else int(pv[nb])
                    if adjr != want:
                        err('neighbour-rank', 'cell', g, 'face', k, adjr, 'expected', want)
                    nsides += 1
                    if (c, k) not in d['S']:
                        err('side', 'boundary face', (g, k), 'has no valid side', side)
                        continue
                    s, sc, gs, ls, ac, af = d['S'][(c, k)]
                    if sc != c or ls != s:
                        err('side', 'face', (g, k), 'side', s, 'belongs to cell', sc, 'of', c, 'and maps back to', ls)
                    if (r, s) in gsides:
                        err('side', 'local side', s, 'used twice on rank', r)
                    gsides[(r, s)] = gs
                    shared.setdefault(gs, []).append((r, g, k, f2c))
                    if nb >= 0:
                        back = [q for q in range(4) if geo.nb[nb, q] == g and gface[nb, q] == gface[g, k]][0]
                        if (ac, af) != (seen[nb][1], back):
                            err('side-neighbour', 'face', (g, k), 'rank', r, 'cell and face across', (ac, af), 'expected',
                                (seen[nb][1], back))
                nrm = geo.S[g, k] / area[g, k]
                odn = ang[:, :3] @ nrm
                for a in range(len(ang)):
                    v, out, inc = d['O'][(c, k, a)]
                    e = odn[a]
                    if not abs(v - e) <= 1e-9:
                        err('normal', 'cell', g, 'face', k, 'angle', a, 'Omega.n', v, 'expected', e)
                    elif abs(e) > 1.01e-10 and (out, inc) != (int(e > 0), int(e < 0)):
                        err('upwind', 'cell', g, 'face', k, 'angle', a, 'Omega.n', e, 'outgoing', out, 'incoming', inc)
                    elif out and inc:
                        err('upwind', 'cell', g, 'face', k, 'angle', a, 'both incoming and outgoing')
        if nsides != d['N'][1]:
            err('side', 'rank', r, 'reports', d['N'][1], 'sides, has', nsides)
    for gs, l in shared.items():
        if len(l) == 1:
            r, g, k, o = l[0]
            if geo.nb[g, k] >= 0:
                err('side-match', 'side', gs, 'of the shared face', (g, k), 'is only known on rank', r)
        elif len(l) == 2:
            (r, g, k, o), (r2, g2, k2, o2) = l
            if geo.nb[g, k] != g2 or geo.nb[g2, k2] != g:
                err('side-match', 'side', gs, 'is face', (g, k), 'on one rank and', (g2, k2), 'on another')
            elif [int(geo.nbv[g, k, j]) for j in o] != o2:
                err('face-order', 'ranks', r, r2, 'order the vertices of the face of cells', g, g2, 'differently')
            else:
                for a in range(len(dirs)):
                    x = R[r]['O'][(seen[g][1], k, a)]
                    y = R[r2]['O'][(seen[g2][1], k2, a)]
                    if (x[1], x[2]) != (y[2], y[1]):
                        err('agree', 'ranks', r, r2, 'disagree on upwind of face of cells', g, g2, 'angle', a)
        else:
            err('side-match', 'side number', gs, 'on', len(l), 'faces')
    return bad, n


def one(ck, exe, i):
    rng = random.Random('C13/%d/%d' % (ck.seed, i))
    desc, m = mesh_for(rng, i)
    N = rng.choice([2, 2, 4, 6])
    nr = min(rng.choice([1, 2, 3, 4, 6, 8]), len(m.cells))
    pv = ml.random_partition(rng, m, nr)
    # partitions of large files lie beyond 2 and 4 GB
    gaps = {rng.randrange(nr): rng.choice([1 << 31, 1 << 32, 5 << 31]) - rng.choice([0, 500])} if i % 20 == 11 else None
    dd = cases.write_case(ck, i, m, pv, nr, {}, rng, gaps=gaps)
    r = tl.run_mpi(exe, ['mesh=m.pmesh', 'sn=%d' % N], nr, 1, cwd=dd)
    text = '%s %d cells %d ranks S%d%s' % (desc, len(m.cells), nr, N, ', gap in front of partition %s' % gaps if gaps else '')
    ck.count('files beyond 2 GB', 1 if gaps else 0)
    ck.case((desc, len(m.cells), nr, N, i), True, text)
    if r.timeout or r.rc != 0:
        ck.violation('hang' if r.timeout else 'abort', 'valid mesh failed: %s\n%s' % (text, r.out[-1500:]), cases.replay_files(dd))
        return
    dumps = [open('%s/mesh.%d' % (dd, k)).read() for k in range(nr)]
    bad, n = compare(m, dumps, N, pv)
    ck.count('cells compared', n)
    ck.count('ranks', nr)
    for key, t in bad:
        ck.violation(key, '%s\n%s' % (t, text), cases.replay_files(dd))
    tl.shutil.rmtree(dd)


def main():
    ck = tl.Check('C13')
    ck.rule = 'a case is one (mesh, scaling, partition, order of cells/faces/nodes in each partition); all count'
    ck.assumptions = ['distinct nodes, positive volumes, conforming mesh',
                      'faces with |Omega.n| <= 1e-10 may be classified either way, but the same way on both ranks']
    exe = tl.build_sweep('debug', [tl.HARN + '/h_mesh.cc'], 'h_mesh', main=False)
    tl.pmap(lambda i: one(ck, exe, i), range(ck.n(400, 5000)))
    return ck.finish()
