"""C14: refinement gives a conforming mesh of 8 times the cells, same volume.

Runs the real RefineSerialMesh; an offline oracle relates every node, face and
cell of the refined file to the coarse mesh."""
import itertools
import random
import re
import numpy as np
import cases
import meshlib as ml
import tycholib as tl

INV = ml.INVALID


def compare(m, q):
    """coarse mesh, refined mesh -> violations"""
    bad = []

    def err(key, *a):
        if len(bad) < 4:
            bad.append((key, ' '.join(str(x) for x in a)))
    C, F, N = len(m.cells), len(m.fcells), len(m.nodes)
    edges = {}
    for c in m.cells:
        for a, b in itertools.combinations(sorted(int(x) for x in c), 2):
            edges.setdefault((a, b), len(edges))
    if (len(q.cells), len(q.nodes), len(q.fcells)) != (8 * C, N + len(edges), 4 * F + 8 * C):
        err('counts', 'refined mesh has', len(q.cells), 'cells', len(q.nodes), 'nodes', len(q.fcells), 'faces instead of',
            8 * C, N + len(edges), 4 * F + 8 * C)
    # nodes: which old node (a,a) or edge midpoint (a,b) each one is
    want = {}
    for a in range(N):
        want.setdefault(tuple(m.nodes[a] + 0.0), []).append((a, a))
    for a, b in edges:
        want.setdefault(tuple(0.5 * (m.nodes[a] + m.nodes[b]) + 0.0), []).append((a, b))
    who = []
    seen = set()
    for i, x in enumerate(q.nodes):
        w = want.get(tuple(x + 0.0))
        if not w or len(w) != 1:
            err('node', 'node', i, 'at', x, 'is neither an old node nor an edge midpoint')
            return bad
        if w[0] in seen:
            err('node-twice', 'node', w[0], 'appears twice')
        seen.add(w[0])
        who.append(w[0])
    if len(seen) != N + len(edges):
        err('node-lost', N + len(edges) - len(seen), 'nodes are missing')
    # cells
    parent = {tuple(sorted(int(x) for x in c)): i for i, c in enumerate(m.cells)}
    V = np.abs(m.volumes())
    if (q.cells < 0).any() or (q.cells >= len(q.nodes)).any() or (q.cfaces < 0).any() or (q.cfaces >= len(q.fcells)).any():
        err('index', 'a cell refers to a node or face that does not exist')
        return bad
    v = np.abs(q.volumes())
    kids = {}
    for i, c in enumerate(q.cells):
        u = sorted({e for n in c for e in who[n]})
        p = parent.get(tuple(u))
        if p is None or len(set(map(int, c))) != 4:
            err('child', 'cell', i, 'with nodes', [who[n] for n in c], 'is inside of no old cell')
            return bad
        kids.setdefault(p, []).append(i)
        h = np.abs(m.nodes[m.cells[p]]).max()
        e = max(np.linalg.norm(m.nodes[a] - m.nodes[b]) for a in m.cells[p] for b in m.cells[p])
        if not abs(v[i] - V[p] / 8) <= 1e-9 * V[p] + 1e-13 * (h + e) * e * e:
            err('volume', 'cell', i, 'has volume', v[i], ', an eighth of its parent', V[p] / 8)
        if q.mats[i] != m.mats[p]:
            err('material', 'cell', i, 'has material', q.mats[i], 'its parent', m.mats[p])
    for p in range(C):
        if len(kids.get(p, [])) != 8:
            err('children', 'old cell', p, 'has', len(kids.get(p, [])), 'children')
    # conformity: faces of cells, from nodes alone
    fk = {}
    for i, c in enumerate(q.cells):
        for k in range(4):
            fk.setdefault(tuple(sorted(int(c[j]) for j in range(4) if j != k)), []).append((i, k))
    oldb = {}
    for f in range(F):
        if INV in [int(x) for x in m.fcells[f]]:
            oldb[tuple(sorted(int(x) for x in m.fnodes[f]))] = 0
    cen = q.nodes[q.cells]
    for n, l in fk.items():
        if len(l) > 2:
            err('conformity', 'face', n, 'belongs to', len(l), 'cells')
        elif len(l) == 2:
            pts = q.nodes[list(n)]
            nrm = np.cross(pts[1] - pts[0], pts[2] - pts[0])
            s = [np.dot(nrm, q.nodes[q.cells[i][k]] - pts[0]) for i, k in l]
            if not s[0] * s[1] < 0:
                err('overlap', 'cells', l[0][0], 'and', l[1][0], 'lie on the same side of their common face')
        else:
            u = tuple(sorted({e for x in n for e in who[x]}))
            if u not in oldb:
                err('boundary', 'face', [who[x] for x in n], 'of only one cell is not on the old boundary')
            else:
                oldb[u] += 1
    for u, k in oldb.items():
        if k != 4:
            err('boundary', 'old boundary face', u, 'is covered by', k, 'faces')
    # face records
    rec = {}
    for f in range(len(q.fcells)):
        n = tuple(sorted(int(x) for x in q.fnodes[f]))
        cs = [int(x) for x in q.fcells[f]]
        if n not in fk:
            err('face', 'face record', f, 'with nodes', n, 'is no face of a cell')
            continue
        if n in rec:
            err('face-twice', 'face', n, 'has two records')
        rec[n] = f
        w = [i for i, k in fk[n]]
        if sorted(c for c in cs if c != INV) != sorted(w):
            err('face-cells', 'face', f, 'has cells', cs, 'instead of', w)
    for i, c in enumerate(q.cells):
        w = sorted(rec.get(tuple(sorted(int(c[j]) for j in range(4) if j != k)), -1) for k in range(4))
        if sorted(int(x) for x in q.cfaces[i]) != w:
            err('cell-faces', 'cell', i, 'has faces', q.cfaces[i], 'instead of', w)
    return bad


def report(out, m, q):
    bad = []
    nums = [[int(x) for x in re.findall(r'\d+', l)] for l in out.split('\n') if l.startswith(('Cells:', 'Exterior'))]
    want = []
    for x in (m, q):
        ext = sum(1 for f in x.fcells if INV in [int(f[0]), int(f[1])])
        want += [[len(x.cells), len(x.nodes), len(x.fcells)], [ext, len(x.fcells) - ext]]
    if nums != want:
        bad.append(('report', 'prints %s instead of %s' % (nums, want)))
    return bad


def mesh_for(rng, i):
    if rng.random() < 0.15:
        # a very small body next to a large one; coordinates near zero keep their digits
        h = 10.0 ** -rng.uniform(2, 10)
        m = ml.disjoint(rng, ml.delaunay_mesh(rng, rng.randint(1, 6), h, 'mix', lo=0.0),
                        ml.delaunay_mesh(rng, rng.randint(1, 4), 1.0, 'mix', lo=0.0), shift=3.0)
        return 'bodies of sizes %.0e and 1' % h, m
    desc, m = cases.gen_mesh(rng, cases.sz(rng, i, ['tiny', 'small', 'small', 'mid'], 19))
    r = rng.random()
    if r < 0.3:
        s = rng.choice([1e-10, 1e-6, 1e-3, 1e3, 1e8, 1e12])
        m.nodes = m.nodes * s - rng.choice([0.0, 50.0 * s, 1000.0 * s])
        desc += 'x%g' % s
    elif r < 0.4:
        m.nodes = m.nodes * np.array([1.0, 0.1, rng.choice([1.0, 0.02])])
        desc += 'flat'
    if rng.random() < 0.3:
        m.mats = np.array([rng.choice([1, 2, 0, 9, 2 ** 40 + 5]) for _ in m.mats])
    if rng.random() < 0.4:
        # the format leaves open which of the two cells of a boundary face is given
        for f in range(len(m.fcells)):
            if int(m.fcells[f][1]) == INV and rng.random() < 0.5:
                m.fcells[f] = m.fcells[f][::-1].copy()
        desc += ' swapped'
    return desc, m


def one(ck, exe, i):
    rng = random.Random('C14/%d/%d' % (ck.seed, i))
    desc, m = mesh_for(rng, i)
    swapped = 'swapped' in desc
    dd = ck.sub(i)
    m.write(dd + '/m0.smesh')
    depth = 2 if len(m.cells) < 60 and i % 3 == 0 else 1
    for g in range(depth):
        a, b = '%s/m%d.smesh' % (dd, g), '%s/m%d.smesh' % (dd, g + 1)
        r = tl.run_tool(exe, [a, b], cwd=dd)
        text = 'refinement %d of %s: %d cells' % (g + 1, desc, len(m.cells))
        ck.case(text + str(i), True, text)
        ck.count('cells refined', len(m.cells))
        if g:
            ck.count('second refinements')
        files = cases.replay_files(dd)
        if r.timeout or r.rc != 0:
            ck.violation('hang' if r.timeout else 'abort', 'refinement failed: %s\n%s' % (text, r.out[-1500:]), files)
            return
        try:
            q = ml.read_smesh(b)
        except (AssertionError, OSError, ValueError) as e:
            ck.violation('file', 'bad mesh file: %s\n%s' % (e, text), files)
            return
        bad = compare(m, q)
        if not bad:
            # the counts of the coarse mesh assume the usual order of the two cells
            bad = report(r.out, m, q) if not swapped or g else []
        for key, t in bad:
            ck.violation(key, '%s\n%s' % (t, text), files)
        if bad:
            return
        m = q
    tl.shutil.rmtree(dd)


def main():
    ck = tl.Check('C14')
    ck.rule = 'a case is one refinement of one mesh (random shape, scale, numbering); distinct by mesh'
    ck.assumptions = ['conforming serial meshes with distinct nodes, edge lengths not below 1e-11 of the diameter']
    exe = tl.build_util('RefineSerialMesh')
    tl.pmap(lambda i: one(ck, exe, i), range(ck.n(110, 2500)))
    return ck.finish()
