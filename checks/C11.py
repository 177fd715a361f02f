"""C11: partitioning assigns every cell once and preserves the whole mesh.

Runs the real partition tools on random serial meshes; an independent reader
compares every record of the parallel mesh file with the serial mesh."""
import random
import re
import numpy as np
import cases
import meshlib as ml
import tycholib as tl

INV = ml.INVALID


def compare(m, parts):
    """serial mesh vs the partitions of a file -> (violations, partition vector)"""
    bad = []

    def err(key, *a):
        if len(bad) < 4:
            bad.append((key, ' '.join(str(x) for x in a)))
    C, F, N = len(m.cells), len(m.fcells), len(m.nodes)
    pv = -np.ones(C, dtype=int)
    lc = {}
    for p, P in enumerate(parts):
        for i, c in enumerate(P.cells):
            g = c[8]
            if g >= C:
                err('cell-id', 'partition', p, 'has global cell', g, 'of', C)
                return bad, None
            if pv[g] >= 0:
                err('cell-twice', 'global cell', g, 'is in partitions', pv[g], 'and', p)
                return bad, None
            pv[g] = p
            lc[g] = i
    if (pv < 0).any():
        err('cell-lost', 'global cells', np.nonzero(pv < 0)[0][:5], 'are in no partition')
        return bad, None
    for p, P in enumerate(parts):
        fid = [f[5] for f in P.faces]
        nid = [g for x, g in P.nodes]
        if len(set(fid)) != len(fid) or len(set(nid)) != len(nid):
            err('twice', 'partition', p, 'lists a global face or node twice')
        wf = {int(f) for c in P.cells for f in m.cfaces[c[8]]}
        wn = {int(n) for c in P.cells for n in m.cells[c[8]]}
        if set(fid) != wf:
            err('faces', 'partition', p, 'has faces', sorted(set(fid) - wf)[:4], 'too many,', sorted(wf - set(fid))[:4], 'too few')
            continue
        if set(nid) != wn:
            err('nodes', 'partition', p, 'has nodes', sorted(set(nid) - wn)[:4], 'too many,', sorted(wn - set(nid))[:4], 'too few')
            continue
        for i, c in enumerate(P.cells):
            g = c[8]
            if c[9] != m.mats[g]:
                err('material', 'cell', g, 'has material', c[9], 'instead of', m.mats[g])
            if any(x >= len(fid) for x in c[:4]) or any(x >= len(nid) for x in c[4:8]):
                err('cell-index', 'partition', p, 'cell', i, 'refers to a face or node that does not exist')
                continue
            if [fid[x] for x in c[:4]] != [int(x) for x in m.cfaces[g]]:
                err('cell-faces', 'cell', g, 'has faces', [fid[x] for x in c[:4]], 'instead of', m.cfaces[g])
            if [nid[x] for x in c[4:8]] != [int(x) for x in m.cells[g]]:
                err('cell-nodes', 'cell', g, 'has nodes', [nid[x] for x in c[4:8]], 'instead of', m.cells[g])
        for i, f in enumerate(P.faces):
            g = f[5]
            if any(x >= len(nid) for x in f[2:5]):
                err('face-index', 'partition', p, 'face', i, 'refers to a node that does not exist')
                continue
            if [nid[x] for x in f[2:5]] != [int(x) for x in m.fnodes[g]]:
                err('face-nodes', 'face', g, 'has nodes', [nid[x] for x in f[2:5]], 'instead of', m.fnodes[g])
            bt = 2
            for k in range(2):
                c = int(m.fcells[g][k])
                if c == INV:
                    bt, wc, wp = 0, INV, INV
                else:
                    wc, wp = lc[c], int(pv[c])
                    if wp != p and bt == 2:
                        bt = 1
                if f[k] != wc:
                    err('face-cells', 'partition', p, 'face', g, 'side', k, 'has cell', f[k], 'instead of', wc)
                if f[6 + k] != wp:
                    err('face-parts', 'partition', p, 'face', g, 'side', k, 'has partition', f[6 + k], 'instead of', wp)
            if f[8] != bt:
                err('face-kind', 'partition', p, 'face', g, 'has kind', f[8], 'instead of', bt)
        for i, (x, g) in enumerate(P.nodes):
            if x.tobytes() != m.nodes[g].astype('<f8').tobytes():
                err('node-coords', 'node', g, 'is at', x, 'instead of', m.nodes[g])
    return bad, pv


def columns(m, pv, nx, ny):
    """are the parts the columns promised? -> text or None"""
    C = len(m.cells)
    cen = m.nodes[m.cells].mean(axis=1)
    eps = 1e-12 * max(1e-300, np.abs(m.nodes).max())
    prev = None
    for i in range(nx):
        col = np.nonzero((pv >= i * ny) & (pv < (i + 1) * ny))[0]
        if not C // nx <= len(col) <= -(-C // nx):
            return 'balance', 'column %d has %d of %d cells' % (i, len(col), C)
        if len(col):
            if prev is not None and cen[col, 0].min() < prev - eps:
                return 'order-x', 'column %d begins at x=%r, an earlier one ends at %r' % (i, cen[col, 0].min(), prev)
            prev = cen[col, 0].max()
        py = None
        for j in range(ny):
            s = np.nonzero(pv == i * ny + j)[0]
            if not len(col) // ny <= len(s) <= -(-len(col) // ny):
                return 'balance', 'part (%d,%d) has %d of the %d cells of its column' % (i, j, len(s), len(col))
            if len(s):
                if py is not None and cen[s, 1].min() < py - eps:
                    return 'order-y', 'part (%d,%d) begins at y=%r, an earlier one ends at %r' % (i, j, cen[s, 1].min(), py)
                py = cen[s, 1].max()
    return None


def gen(rng, i):
    r = rng.random()
    desc, m = cases.gen_mesh(rng, cases.sz(rng, i, ['tiny', 'small', 'small', 'mid'], 31))
    if r < 0.15:
        # positions anywhere, any scale, negative too
        s = 10.0 ** rng.randint(-6, 6)
        m.nodes = (m.nodes - 50.0) * s * np.array([rng.choice([1, -1]) for _ in range(3)]) + rng.choice([0, 1e3 * s])
        desc += 'x%g' % s
    if r > 0.8:
        m.mats = np.array([rng.choice([1, 2, 0, 7, 2 ** 40 + 5]) for _ in m.mats])
        desc += ' materials'
    return desc, m


def one(ck, exe, i):
    rng = random.Random('C11/%d/%d' % (ck.seed, i))
    desc, m = gen(rng, i)
    C = len(m.cells)
    dd = ck.sub(i)
    m.write(dd + '/m.smesh')
    col = i % 2 == 0
    if col:
        nx, ny = rng.choice([1, 2, 3, 5, 8]), rng.choice([1, 2, 3, 4, 7])
        if rng.random() < 0.1:
            nx, ny = rng.choice([(C, 1), (1, C), (11, 11)])
        nparts = nx * ny
        args = [nx, ny]
    else:
        nparts = min(rng.choice([1, 2, 3, 4, 5, 8, 16]), C)
        if rng.random() < 0.1:
            nparts = C
        args = [nparts]
    tool = 'PartitionColumns' if col else 'PartitionMetis'
    text = '%s %s on %s: %d cells %d faces %d nodes' % (tool, args, desc, C, len(m.fcells), len(m.nodes))
    ck.case(text + str(i), nparts > 1, text)
    ck.count(tool)
    ck.count('cells compared', C)
    ck.count('partitions compared', nparts)
    if rng.random() < 0.3:
        # an older, larger file of that name must vanish
        open(dd + '/m.pmesh', 'wb').write(bytes(rng.getrandbits(8) for _ in range(2000)) * 400)
    r = tl.run_tool(exe[tool], args + ['m.smesh', 'm.pmesh'], cwd=dd)
    files = cases.replay_files(dd)
    if r.timeout or r.rc != 0:
        ck.violation('hang' if r.timeout else 'abort', 'partitioning failed: %s\n%s' % (text, r.out[-1500:]), files)
        return
    try:
        parts = ml.read_pmesh(dd + '/m.pmesh')
    except (AssertionError, OSError, ValueError, tl.struct_error) as e:
        ck.violation('file', 'bad parallel mesh file: %s\n%s' % (e, text), files)
        return
    if len(parts) != nparts:
        ck.violation('parts', '%d partitions instead of %d\n%s' % (len(parts), nparts, text), files)
        return
    bad, pv = compare(m, parts)
    for key, t in bad:
        ck.violation(key, '%s\n%s' % (t, text), files)
    if bad:
        return
    if col:
        b = columns(m, pv, nx, ny)
        if b:
            ck.violation('columns-' + b[0], '%s\n%s' % (b[1], text), files)
        said = {(int(a), int(b)): int(c) for a, b, c in re.findall(r'partition \((\d+),(\d+)\) = (\d+)', r.out)}
        for (a, b), c in said.items():
            if c != int((pv == a * ny + b).sum()):
                ck.violation('columns-report', 'reports %d cells in (%d,%d), wrote %d\n%s' % (c, a, b, (pv == a * ny + b).sum(), text), files)
        ck.count('column sizes reported', len(said))
    else:
        sizes = np.bincount(pv, minlength=nparts)
        # METIS promises 3 percent; it misses by a few cells on small parts
        # and promises nothing for parts of a handful of cells
        if C >= 8 * nparts and sizes.max() > 1.03 * C / nparts + 1 + max(2.0, 0.2 * C / nparts):
            ck.violation('metis-balance', 'part sizes %s\n%s' % (sizes, text), files)
    b1 = open(dd + '/m.pmesh', 'rb').read()
    r = tl.run_tool(exe[tool], args + ['m.smesh', 'n.pmesh'], cwd=dd, env={'MALLOC_PERTURB_': 1 + rng.randrange(254)})
    if r.rc != 0 or open(dd + '/n.pmesh', 'rb').read() != b1:
        ck.violation('repeat', 'a second run gives another file\n%s' % text, files)
    tl.shutil.rmtree(dd)


def main():
    ck = tl.Check('C11')
    ck.rule = 'a case is one (mesh, tool, part counts); non-trivial with more than one part'
    ck.assumptions = ['conforming serial meshes; Metis with at most as many parts as cells']
    exe = tl.build_utils(['PartitionColumns', 'PartitionMetis'])
    tl.pmap(lambda i: one(ck, exe, i), range(ck.n(1200, 12000)))
    return ck.finish()
