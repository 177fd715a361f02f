"""Mesh generators and independent readers/writers of the documented file formats.

Nothing here uses code of /repo: the formats are re-implemented from the
documentation in src/SerialMesh.hh, src/ParallelMesh.hh and src/PsiData.cc.
"""
import struct
import numpy as np

INVALID = 2 ** 64 - 1
U64 = np.uint64


class SMesh:
    """Serial mesh.  nodes (N,3) float; cells (C,4) node ids; mats (C,);
    cfaces (C,4) face ids; fcells (F,2) (INVALID = none); fnodes (F,3)."""

    def __init__(self, nodes, cells, mats=None, rng=None, shuffle_faces=True):
        self.nodes = np.asarray(nodes, float)
        self.cells = np.asarray(cells, dtype=np.int64)
        C = len(self.cells)
        self.mats = np.ones(C, dtype=np.int64) if mats is None else np.asarray(mats, dtype=np.int64)
        self._build_faces(rng, shuffle_faces)

    def _build_faces(self, rng, shuffle):
        C = len(self.cells)
        key = {}
        fcells, fnodes = [], []
        self.cfaces = np.zeros((C, 4), dtype=np.int64)
        corder = range(C)
        for c in corder:
            lf = [0, 1, 2, 3]
            if rng is not None and shuffle:
                rng.shuffle(lf)
            for slot, l in enumerate(lf):
                n = [int(self.cells[c, k]) for k in range(4) if k != l]
                k = tuple(sorted(n))
                f = key.get(k)
                if f is None:
                    f = len(fcells)
                    key[k] = f
                    fcells.append([c, INVALID])
                    if rng is not None and shuffle:
                        rng.shuffle(n)
                    fnodes.append(n)
                else:
                    assert fcells[f][1] == INVALID, "non-manifold mesh"
                    fcells[f][1] = c
                self.cfaces[c, slot] = f
        F = len(fcells)
        self.fcells = np.array(fcells, dtype=object)
        self.fnodes = np.array(fnodes, dtype=np.int64).reshape(F, 3)
        if rng is not None and shuffle:
            # permute face numbering and order of the two cells
            perm = list(range(F))
            rng.shuffle(perm)
            perm = np.array(perm)
            inv = np.empty(F, dtype=np.int64)
            inv[perm] = np.arange(F)
            self.fcells = self.fcells[perm]
            self.fnodes = self.fnodes[perm]
            self.cfaces = inv[self.cfaces]
            for f in range(F):
                if self.fcells[f][1] != INVALID and rng.random() < 0.5:
                    self.fcells[f] = self.fcells[f][::-1].copy()

    # --- derived
    def volumes(self):
        p = self.nodes[self.cells]
        return np.einsum('ij,ij->i', np.cross(p[:, 1] - p[:, 0], p[:, 2] - p[:, 0]), p[:, 3] - p[:, 0]) / 6.0

    def write(self, path):
        with open(path, 'wb') as f:
            f.write(b'Tycho 2 Serial Mesh'.ljust(32, b'\0'))
            C, F, N = len(self.cells), len(self.fcells), len(self.nodes)
            f.write(struct.pack('<4Q', 2, C, F, N))
            a = np.concatenate([self.cfaces, self.cells, self.mats[:, None]], axis=1).astype(np.uint64)
            f.write(a.tobytes())
            fc = np.array([[int(x) for x in r] for r in self.fcells], dtype=np.uint64).reshape(F, 2)
            f.write(np.concatenate([fc, self.fnodes.astype(np.uint64)], axis=1).tobytes())
            f.write(self.nodes.astype('<f8').tobytes())


def read_smesh(path):
    b = open(path, 'rb').read()
    assert b[:32] == b'Tycho 2 Serial Mesh'.ljust(32, b'\0'), 'bad magic'
    v, C, F, N = struct.unpack_from('<4Q', b, 32)
    assert v == 2
    need = 64 + 72 * C + 40 * F + 24 * N
    assert len(b) == need, 'length %d expected %d' % (len(b), need)
    a = np.frombuffer(b, '<u8', 9 * C, 64).reshape(C, 9)
    f = np.frombuffer(b, '<u8', 5 * F, 64 + 72 * C).reshape(F, 5)
    n = np.frombuffer(b, '<f8', 3 * N, 64 + 72 * C + 40 * F).reshape(N, 3)
    m = SMesh.__new__(SMesh)
    m.nodes = n.copy()
    m.cfaces = a[:, :4].astype(np.int64)
    m.cells = a[:, 4:8].astype(np.int64)
    m.mats = a[:, 8].astype(np.int64)
    fc = np.empty((F, 2), dtype=object)
    for i in range(F):
        fc[i, 0] = int(f[i, 0])
        fc[i, 1] = int(f[i, 1])
    m.fcells = fc
    m.fnodes = f[:, 2:5].astype(np.int64)
    return m


# ----------------------------------------------------------------- pmesh
class Part:
    pass


def make_parts(m, pvec, nparts, rng=None):
    """Split a serial mesh into partition records, as the format documents."""
    parts = []
    pvec = np.asarray(pvec)
    loc = []
    for p in range(nparts):
        cells = [int(c) for c in np.nonzero(pvec == p)[0]]
        if rng is not None:
            rng.shuffle(cells)
        loc.append({c: i for i, c in enumerate(cells)})
    for p in range(nparts):
        P = Part()
        cells = sorted(loc[p], key=loc[p].get)
        faces = sorted({int(f) for c in cells for f in m.cfaces[c]})
        nodes = sorted({int(n) for c in cells for n in m.cells[c]})
        if rng is not None:
            # any local numbering of cells, faces and nodes is legal
            rng.shuffle(faces)
            rng.shuffle(nodes)
        fl = {f: i for i, f in enumerate(faces)}
        nl = {n: i for i, n in enumerate(nodes)}
        P.cells = [[fl[int(f)] for f in m.cfaces[c]] + [nl[int(n)] for n in m.cells[c]] + [c, int(m.mats[c])]
                   for c in cells]
        P.faces = []
        for f in faces:
            bc, pt, bt = [], [], 2
            for g in m.fcells[f]:
                g = int(g)
                if g == INVALID:
                    bc.append(INVALID)
                    pt.append(INVALID)
                    bt = 0
                elif pvec[g] != p:
                    bc.append(loc[int(pvec[g])][g])
                    pt.append(int(pvec[g]))
                    bt = 1
                else:
                    bc.append(loc[p][g])
                    pt.append(p)
            fn = [int(n) for n in m.fnodes[f]]
            if rng is not None:
                rng.shuffle(fn)      # ... and any order of the nodes of a face
            P.faces.append(bc + [nl[n] for n in fn] + [f] + pt + [bt])
        P.nodes = [(m.nodes[n], n) for n in nodes]
        parts.append(P)
    return parts


def write_pmesh(path, parts, gaps=None):
    """gaps: {partition: unused bytes in front of it} - a hole in the file"""
    n = len(parts)
    blobs = []
    for P in parts:
        b = [struct.pack('<3Q', len(P.cells), len(P.faces), len(P.nodes))]
        for c in P.cells:
            b.append(struct.pack('<10Q', *c))
        for f in P.faces:
            b.append(struct.pack('<9Q', *f))
        for x, g in P.nodes:
            b.append(struct.pack('<3dQ', x[0], x[1], x[2], g))
        blobs.append(b''.join(b))
    gaps = gaps or {}
    off = []
    end = 32 + 8 * (3 + n)
    for p, b in enumerate(blobs):
        off.append(end + gaps.get(p, 0))
        end = off[-1] + len(b)
    off.append(end)
    with open(path, 'wb') as f:
        f.write(b'Tycho 2 Parallel Mesh'.ljust(32, b'\0'))
        f.write(struct.pack('<2Q', 2, n))
        f.write(struct.pack('<%dQ' % (n + 1), *off))
        for o, b in zip(off, blobs):
            f.seek(o)
            f.write(b)


def read_pmesh(path):
    b = open(path, 'rb').read()
    assert b[:32] == b'Tycho 2 Parallel Mesh'.ljust(32, b'\0'), 'bad magic'
    v, n = struct.unpack_from('<2Q', b, 32)
    assert v == 2, 'bad version'
    off = struct.unpack_from('<%dQ' % (n + 1), b, 48)
    assert off[0] == 32 + 8 * (3 + n), 'first offset'
    assert off[-1] == len(b), 'last offset %d vs file length %d' % (off[-1], len(b))
    parts = []
    for p in range(n):
        o = off[p]
        C, F, N = struct.unpack_from('<3Q', b, o)
        P = Part()
        size = 24 + 80 * C + 72 * F + 32 * N
        assert off[p + 1] - o == size, 'partition %d size' % p
        P.cells = [[int(x) for x in r] for r in np.frombuffer(b, '<u8', 10 * C, o + 24).reshape(C, 10)]
        P.faces = [[int(x) for x in r] for r in np.frombuffer(b, '<u8', 9 * F, o + 24 + 80 * C).reshape(F, 9)]
        nn = o + 24 + 80 * C + 72 * F
        P.nodes = []
        for i in range(N):
            x, y, z, g = struct.unpack_from('<3dQ', b, nn + 32 * i)
            P.nodes.append((np.array([x, y, z]), g))
        parts.append(P)
    return parts


def read_psi(path):
    """-> psi[cell, angle, vrtx, group]"""
    b = open(path, 'rb').read()
    assert len(b) >= 64, 'psi file shorter than its header'
    assert b[:32] == b'Tycho 2 Psi Output'.ljust(32, b'\0'), 'psi magic'
    v, C, A, G = struct.unpack_from('<4Q', b, 32)
    assert v == 1, 'psi version %d' % v
    assert len(b) == 64 + 8 * C * A * 4 * G, 'psi length %d, header says %d cells %d angles %d groups' % (
        len(b), C, A, G)
    return np.frombuffer(b, '<f8', C * A * 4 * G, 64).reshape(C, A, 4, G)


# ------------------------------------------------------------ generators
def _fix_perm(nodes, cells, rng):
    """random local vertex order, node and cell numbering"""
    cells = [list(map(int, c)) for c in cells]
    for c in cells:
        rng.shuffle(c)
    rng.shuffle(cells)
    perm = list(range(len(nodes)))
    rng.shuffle(perm)
    inv = [0] * len(perm)
    for i, p in enumerate(perm):
        inv[p] = i
    nodes = np.asarray(nodes)[perm]
    cells = [[inv[n] for n in c] for c in cells]
    return nodes, cells


def mats_for(rng, C, kind):
    if kind == 'one':
        return [1] * C
    if kind == 'two':
        return [2] * C
    return [rng.choice((1, 2)) for _ in range(C)]


def delaunay_mesh(rng, npts, size=100.0, mat='mix', min_q=2e-3, lo=0.0, central=0.5):
    """Delaunay mesh of a jittered box.  The upwind relation of a Delaunay mesh
    is acyclic for every direction.  Slivers are avoided by retrying."""
    from scipy.spatial import Delaunay
    for _ in range(200):
        pts = []
        for k in range(8):
            pts.append([size * (((k >> d) & 1) + 0.12 * (rng.random() - 0.5)) for d in range(3)])
        for _ in range(npts):
            if rng.random() < central:
                pts.append([size * (0.3 + 0.4 * rng.random()) for _ in range(3)])
            else:
                pts.append([size * (0.1 + 0.8 * rng.random()) for _ in range(3)])
        pts = np.array(pts) + lo
        d = Delaunay(pts)
        cells = d.simplices
        p = pts[cells]
        vol = np.abs(np.einsum('ij,ij->i', np.cross(p[:, 1] - p[:, 0], p[:, 2] - p[:, 0]), p[:, 3] - p[:, 0])) / 6
        ok = True
        e = np.max([np.linalg.norm(p[:, i] - p[:, j], axis=1) for i in range(4) for j in range(i)], axis=0)
        if np.min(vol / e ** 3) < min_q * 0.05:
            ok = False
        used = np.unique(cells)
        if len(used) != len(pts):
            ok = False
        if ok:
            nodes, cells = _fix_perm(pts, cells, rng)
            return SMesh(nodes, cells, mats_for(rng, len(cells), mat), rng)
    raise RuntimeError('no acceptable Delaunay mesh')


def kuhn_mesh(rng, nx, ny, nz, size=100.0, jitter=0.15, mat='mix', lo=0.0):
    def nid(i, j, k):
        return (i * (ny + 1) + j) * (nz + 1) + k
    nodes = []
    for i in range(nx + 1):
        for j in range(ny + 1):
            for k in range(nz + 1):
                b = [i / nx, j / ny, k / nz]
                h = [1 / nx, 1 / ny, 1 / nz]
                nodes.append([lo + size * (b[d] + (jitter * h[d] * (rng.random() - 0.5))) for d in range(3)])
    import itertools
    cells = []
    for i in range(nx):
        for j in range(ny):
            for k in range(nz):
                for perm in itertools.permutations(range(3)):
                    c = [0, 0, 0]
                    vs = [nid(i, j, k)]
                    for d in perm:
                        c[d] = 1
                        vs.append(nid(i + c[0], j + c[1], k + c[2]))
                    cells.append(vs)
    nodes, cells = _fix_perm(np.array(nodes), cells, rng)
    return SMesh(nodes, cells, mats_for(rng, len(cells), mat), rng)


def single_tet(rng, size=100.0, mat='mix'):
    while True:
        nodes = np.array([[size * rng.random() for _ in range(3)] for _ in range(4)])
        m = SMesh(nodes, [[0, 1, 2, 3]], mats_for(rng, 1, mat), rng)
        if abs(m.volumes()[0]) > 0.02 * size ** 3 / 6:
            return m


def disjoint(rng, a, b, shift=300.0):
    nodes = np.concatenate([a.nodes, b.nodes + shift])
    cells = np.concatenate([a.cells, b.cells + len(a.nodes)])
    mats = np.concatenate([a.mats, b.mats])
    return SMesh(nodes, cells, mats, rng)


# ------------------------------------------------------------- partitions
def random_partition(rng, m, nparts, kind=None):
    C = len(m.cells)
    kind = kind or rng.choice(['random', 'block', 'slab', 'grow'])
    if C < nparts:
        return np.array([i % nparts for i in range(C)])
    if kind == 'random':
        p = [rng.randrange(nparts) for _ in range(C)]
        for i in range(nparts):
            p[i] = i
        rng.shuffle(p)
        return np.array(p)
    if kind == 'block':
        return np.array([i * nparts // C for i in range(C)])
    cen = m.nodes[m.cells].mean(axis=1)
    d = np.array([rng.gauss(0, 1) for _ in range(3)])
    o = np.argsort(cen @ d, kind='stable')
    p = np.zeros(C, dtype=int)
    if kind == 'slab':
        for r, c in enumerate(o):
            p[c] = r * nparts // C
        return p
    # grow: nearest seed
    seeds = rng.sample(range(C), nparts)
    dist = np.array([np.linalg.norm(cen - cen[s], axis=1) for s in seeds])
    p = np.argmin(dist, axis=0)
    return p
