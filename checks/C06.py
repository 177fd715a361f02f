"""C06: face data crosses partition boundaries to exactly the right place.

Part 1 drives the real exchange with unique payloads and injected delays and
checks every boundary value afterwards.  Part 2 runs the solver itself:
successive block Jacobi iterates and multi-rank sweeps satisfy the equations
with exactly the neighbour's values on the partition boundaries."""
import random
import numpy as np
import cases
import meshlib as ml
import travlog as T
import tycholib as tl


def exchange(ck, exe, i):
    rng = random.Random('C06/x/%d/%d' % (ck.seed, i))
    desc, m = cases.gen_mesh(rng, cases.sz(rng, i, ['tiny', 'small', 'small', 'mid'], 23))
    N = rng.choice([2, 2, 4, 6])
    G = rng.choice([1, 2, 3, 5])
    w = cases.wide(rng, i, 25)
    if w:
        desc, m, N, G = w
    C = len(m.cells)
    nr = min(rng.choice([2, 2, 3, 4, 5, 7]), C)
    pv = ml.random_partition(rng, m, nr)
    rounds = rng.choice([1, 2, 4])
    dd = cases.write_case(ck, 'x%d' % i, m, pv, nr, {}, rng)
    args = ['mesh=m.pmesh', 'sn=%d' % N, 'groups=%d' % G, 'rounds=%d' % rounds, 'delay=%d' % rng.choice([0, 20, 60]),
            'seed=%d' % rng.randrange(1000)]
    r = tl.run_mpi(exe, args, nr, 1, cwd=dd, timeout=60)
    text = '%s %d cells %d ranks %s' % (desc, C, nr, ' '.join(args))
    if r.timeout or r.rc != 0:
        ck.case(text, nr > 1, text)
        ck.violation('hang' if r.timeout else 'abort', 'exchange failed: %s\n%s' % (text, r.out[-1500:]), cases.replay_files(dd))
        return
    topo = T.Topo(m, N)
    geo = topo.geo
    A = len(topo.dirs)
    node = {m.nodes[n].tobytes(): n for n in range(len(m.nodes))}
    fid = {}
    for c in range(C):
        for k in range(4):
            fid.setdefault(int(topo.gface[c, k]), []).append((c, k))
    bad = []

    def err(key, *a):
        if len(bad) < 5:
            bad.append((key, ' '.join(str(x) for x in a)))
    # vertex numbers of every cell as its owner reports them
    vert = {}
    data = []
    for q in range(nr):
        b = open('%s/comm.%d' % (dd, q), 'rb').read()
        nc, ns = np.frombuffer(b, '<u8', 2)
        nc, ns = int(nc), int(ns)
        o = 16
        for _ in range(nc):
            g = int(np.frombuffer(b, '<u8', 1, o)[0])
            for v in range(4):
                vert[(g, node[b[o + 8 + 24 * v:o + 32 + 24 * v]])] = v
            o += 104
        sides = {}
        for _ in range(ns):
            s, gs = [int(x) for x in np.frombuffer(b, '<u8', 2, o)]
            sides[s] = (gs, [node[b[o + 16 + 24 * v:o + 40 + 24 * v]] for v in range(3)])
            o += 88
        d = np.frombuffer(b, '<f8', rounds * ns * A * 3 * G, o).reshape(rounds, ns, A, 3, G)
        o += d.nbytes
        changed, left = [int(x) for x in np.frombuffer(b, '<u8', 2, o)]
        data.append((ns, sides, d, changed, left))
    vals = 0
    for q in range(nr):
        ns, sides, d, changed, left = data[q]
        if changed:
            err('source-changed', 'rank', q, 'exchange changed', changed, 'flux values it sent')
        if left:
            err('leftover', 'rank', q, 'has an unreceived message after the exchanges')
        idx = np.arange(ns * A * 3 * G).reshape(ns, A, 3, G)
        sent = -(1.0 + idx)
        for s in range(ns):
            gs, nodes = sides[s]
            mine = [x for x in fid[gs] if pv[x[0]] == q]
            if not mine:
                err('side', 'rank', q, 'side', s, 'global', gs, 'is not its own')
                continue
            c, k = mine[0]
            nb = int(geo.nb[c, k])
            for rd in range(rounds):
                got = d[rd, s]
                if nb < 0:
                    if not (got == sent[s]).all():
                        err('untouched', 'rank', q, 'exterior side', gs, 'round', rd, 'was changed')
                    continue
                want = sent[s].copy()
                sg = topo.sign[c, :, k]
                for v in range(3):
                    nv = vert[(nb, nodes[v])]
                    for a in np.nonzero(sg < 0)[0]:
                        want[a, v] = 1.0 + np.arange(G) + G * (nv + 4 * (a + A * (nb + 1000 * rd)))
                w = (got != want) & (sg != 0)[:, None, None]
                vals += int((sg < 0).sum()) * 3 * G
                if w.any():
                    a, v, g = [int(x[0]) for x in np.nonzero(w)]
                    err('incoming' if sg[a] < 0 else 'untouched', 'rank', q, 'side', gs, 'angle', a, 'vertex', v, 'group', g,
                        'round', rd, 'is', got[a, v, g], 'expected', want[a, v, g])
    ck.case(text, vals > 0, {'case': text, 'values checked': vals})
    ck.count('exchanged values checked', vals)
    ck.count('exchanges', rounds)
    for key, x in bad:
        ck.violation(key, '%s\n%s' % (x, text), cases.replay_files(dd))
    tl.shutil.rmtree(dd)


def solver(ck, exe, i):
    rng = random.Random('C06/s/%d/%d' % (ck.seed, i))
    kind = rng.choice(['PBJ', 'PBJOuter', 'PBJSI', 'TraverseGraph', 'OriginalTycho1', 'OriginalTycho2', 'Schur'])
    mdesc, m = cases.gen_mesh(rng, cases.sz(rng, i, ['tiny', 'small', 'small', 'mid'], 23))
    d = cases.gen_deck(rng, SweepType=kind, iterMax=1, nGroups=rng.choice([1, 2, 3, 4]), errMax=1e-300, DD_ErrMax=1e-300)
    w = cases.wide(rng, i, 15)
    if w:
        mdesc, m, d['snOrder'], d['nGroups'] = w
    if kind == 'Schur':
        d.update(DD_ErrMax=1e-12, DD_IterMax=500)
    nr = min(rng.choice([2, 3, 4, 5]), len(m.cells))
    th = cases.gen_threads(rng, m, d, nr)
    pv = ml.random_partition(rng, m, nr)
    pr = cases.problem(m, d)
    k = rng.choice([1, 2, 3])
    prev = np.zeros((len(m.cells), len(pr.dirs), 4, d['nGroups']))
    pbj = kind.startswith('PBJ')
    text = cases.describe(m, mdesc, nr, th, d) + ' iterate %d' % k
    if pbj:
        dd = cases.write_case(ck, 's%d' % i, m, pv, nr, dict(d, DD_IterMax=k + 1), rng, 'prev.deck')
        open(dd + '/x.deck', 'w').write(tl.deck_text(dict(d, DD_IterMax=k + 2)))
        r = cases.run_case(exe, dd, nr, th, 'prev.deck')
        if not r.err:
            prev = r.psi
    else:
        dd = cases.write_case(ck, 's%d' % i, m, pv, nr, d, rng)
    r2 = cases.run_case(exe, dd, nr, th)
    for x in ([r] if pbj else []) + [r2]:
        if x.err:
            ck.case(text, True, text)
            ck.violation(x.err, 'valid problem failed: %s\n%s' % (text, x.out[-1500:]), cases.replay_files(dd))
            return
    psi = r2.psi
    if not pbj:
        df = pr.defect(psi, pr.phi(prev))
    else:
        # off-partition values come from the previous iterate
        g = pr.geo
        up = pr.upwind(psi)
        off = np.zeros_like(psi)
        keep = g.nb.copy()
        cut = (keep >= 0) & (np.asarray(pv)[np.maximum(keep, 0)] != np.asarray(pv)[:, None])
        g.nb = np.where(cut, -1, keep)
        up = pr.upwind(psi)
        g.nb = np.where(cut, keep, -1)
        off = pr.upwind(prev)
        g.nb = keep
        phi = pr.phi(prev) if kind != 'PBJ' else np.zeros((len(m.cells), 4, d['nGroups']))
        b = pr.rhs(np.zeros_like(psi), phi) + up + off
        df = psi - np.linalg.solve(pr.matrices(), b)
        ck.count('block Jacobi iterates')
    scale = np.abs(psi).max()
    df = np.abs(df)
    ck.case(text, scale > 0, {'case': text, 'relative defect': float(df.max() / scale) if scale else 0.0})
    ck.count('solver runs %s' % kind)
    if not (np.isfinite(psi).all() and df.max() <= (1e-7 if kind == 'Schur' else 1e-9) * scale + 1e-300):
        w = np.unravel_index(np.argmax(np.where(np.isfinite(df), df, np.inf)), df.shape)
        ck.violation('solver-boundary', 'flux does not follow from the neighbours: (cell,angle,vertex,group)=%s psi=%g defect=%g '
                     'of max %g\n%s' % (w, psi[w], df[w], scale, text), cases.replay_files(dd))
    tl.shutil.rmtree(dd)


def main():
    ck = tl.Check('C06')
    ck.rule = ('a case is one harness run of several exchanges, or one solver iterate, over (mesh, partition, ranks, order, '
               'groups, delays); non-trivial if values are exchanged (or the flux is not zero)')
    ck.assumptions = ['acyclic meshes', 'faces with |Omega.n| <= 1e-10 carry nothing and may or may not be exchanged']
    exe = tl.build_sweep('plain', [tl.HARN + '/h_comm.cc'], 'h_comm', main=False)
    sw = tl.build_sweep('plain')
    tl.pmap(lambda i: exchange(ck, exe, i), range(ck.n(160, 2500)))
    tl.pmap(lambda i: solver(ck, sw, i), range(ck.n(90, 1500)))
    return ck.finish()
