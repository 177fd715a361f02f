"""C23: the mesh info tools print exactly what the mesh file contains.

The real tools print files of arbitrary records; an independent formatter of
the file contents says what must appear, in order."""
import random
import struct
import cases
import meshlib as ml
import tycholib as tl

KIND = ['MeshBoundary', 'PartitionBoundary', 'NotBoundary']


def u64(rng):
    return rng.choice([0, 1, rng.randrange(100), rng.getrandbits(32), rng.getrandbits(64), 2 ** 64 - 1, 2 ** 63, 2 ** 31, 2 ** 32])


def coord(rng):
    return rng.choice([0.0, -1.5, rng.uniform(-100, 100), rng.uniform(-1, 1) * 1e9, 1e-7, 123456789.123456789, -1e22])


def serial_text(C, F, N, verbose):
    t = ['Mesh Format Name: Tycho 2 Serial Mesh', 'Mesh Version: 2', 'Num Cells: %d' % len(C), 'Num Faces: %d' % len(F),
         'Num Nodes: %d' % len(N)]
    if verbose:
        for i, c in enumerate(C):
            t += ['Cell %d' % i, 'Faces %d %d %d %d' % tuple(c[:4]), 'Nodes %d %d %d %d' % tuple(c[4:8]), 'Material Index %d' % c[8]]
        for i, f in enumerate(F):
            t += ['Face %d' % i, 'Cells %d %d' % tuple(f[:2]), 'Nodes %d %d %d' % tuple(f[2:5])]
        for i, x in enumerate(N):
            t += ['Node %d: (%f, %f, %f)' % ((i,) + tuple(x))]
    return t


def part_text(P, verbose):
    C, F, N = P
    t = ['Num Cells: %d' % len(C), 'Num Faces: %d' % len(F), 'Num Nodes: %d' % len(N)]
    if verbose:
        for i, c in enumerate(C):
            t += ['Cell %d' % i, 'Faces %d %d %d %d' % tuple(c[:4]), 'Nodes %d %d %d %d' % tuple(c[4:8]), 'globalID: %d' % c[8],
                  'materialIndex: %d' % c[9]]
        for i, f in enumerate(F):
            t += ['Face %d' % i, 'Cells %d %d' % tuple(f[:2]), 'Nodes %d %d %d' % tuple(f[2:5]), 'globalID: %d' % f[5],
                  'partition: %d %d' % tuple(f[6:8]), 'boundaryType: %s' % KIND[f[8]]]
        for i, (x, g) in enumerate(N):
            t += ['Node %d' % i, 'coords: (%f, %f, %f)' % tuple(x), 'globalID: %d' % g]
    return t


def norm(lines):
    """white space and empty lines do not matter"""
    return [' '.join(l.split()) for l in lines if l.split()]


def diff(out, want):
    got = norm(out.split('\n'))
    want = norm(want)
    if got == want:
        return None
    k = next((j for j in range(min(len(got), len(want))) if got[j] != want[j]), min(len(got), len(want)))
    return 'line %d of the output is %r instead of %r (%d lines, %d expected)' % (
        k, got[k] if k < len(got) else None, want[k] if k < len(want) else None, len(got), len(want))


def serial(ck, exe, i, rng):
    dd = ck.sub('s%d' % i)
    verbose = rng.random() < 0.85
    if rng.random() < 0.3:
        desc, m = cases.gen_mesh(rng, 'small')
        m.write(dd + '/in')
        C = [[int(x) for x in m.cfaces[c]] + [int(x) for x in m.cells[c]] + [int(m.mats[c])] for c in range(len(m.cells))]
        F = [[int(x) for x in m.fcells[f]] + [int(x) for x in m.fnodes[f]] for f in range(len(m.fcells))]
        N = [tuple(x) for x in m.nodes]
    else:
        mx = rng.choice([0, 1, 5, 40])
        C = [[u64(rng) for _ in range(9)] for _ in range(rng.randint(0, mx))]
        F = [[u64(rng) for _ in range(5)] for _ in range(rng.randint(0, mx))]
        N = [tuple(coord(rng) for _ in range(3)) for _ in range(rng.randint(0, mx))]
        with open(dd + '/in', 'wb') as f:
            f.write(b'Tycho 2 Serial Mesh'.ljust(32, b'\0') + struct.pack('<4Q', 2, len(C), len(F), len(N)))
            for r in C + F:
                f.write(struct.pack('<%dQ' % len(r), *r))
            for x in N:
                f.write(struct.pack('<3d', *x))
    r = tl.run_tool(exe, ['in'] + (['verbose'] if verbose else []), cwd=dd)
    text = 'serial%s %d cells %d faces %d nodes' % (' verbose' if verbose else '', len(C), len(F), len(N))
    ck.case('%s %d' % (text, i), verbose and len(C) + len(F) + len(N) > 0, text)
    ck.count('serial records compared', len(C) + len(F) + len(N) if verbose else 0)
    if r.timeout or r.rc != 0:
        ck.violation('hang' if r.timeout else 'abort', 'printing failed: %s\n%s' % (text, r.out[-800:]), cases.replay_files(dd))
        return
    d = diff(r.out, ['--- SerialMeshInfo Utility ---'] + serial_text(C, F, N, verbose))
    if d:
        ck.violation('serial', '%s\n%s' % (d, text), cases.replay_files(dd))
    tl.shutil.rmtree(dd)


def parallel(ck, exe, i, rng):
    dd = ck.sub('p%d' % i)
    verbose = rng.random() < 0.85
    n = rng.choice([1, 2, 3, 4])
    if rng.random() < 0.3:
        desc, m = cases.gen_mesh(rng, 'small')
        n = min(n, len(m.cells))
        parts = ml.make_parts(m, ml.random_partition(rng, m, n), n, rng)
    else:
        mx = rng.choice([1, 5, 40])
        parts = []
        for _ in range(n):
            P = ml.Part()
            P.cells = [[u64(rng) for _ in range(10)] for _ in range(rng.randint(0, mx))]
            P.faces = [[u64(rng) for _ in range(8)] + [rng.randrange(3)] for _ in range(rng.randint(0, mx))]
            P.nodes = [(tuple(coord(rng) for _ in range(3)), u64(rng)) for _ in range(rng.randint(0, mx))]
            parts.append(P)
    ml.write_pmesh(dd + '/in', parts)
    P = [(p.cells, p.faces, p.nodes) for p in parts]
    off = [32 + 8 * (3 + n)]
    for c, f, x in P:
        off.append(off[-1] + 24 + 80 * len(c) + 72 * len(f) + 32 * len(x))
    r = tl.run_split(exe, ['in'] + (['verbose'] if verbose else []), n, dd)
    text = 'parallel%s %d partitions, %s' % (' verbose' if verbose else '', n, [tuple(map(len, p)) for p in P])
    ck.case('%s %d' % (text, i), verbose, text)
    ck.count('parallel records compared', 2 * sum(len(a) for p in P for a in p) if verbose else 0)
    if r.timeout or r.rc != 0:
        ck.violation('hang' if r.timeout else 'abort', 'printing failed: %s\n%s' % (text, r.out[-800:]), cases.replay_files(dd))
        return
    for q in range(n):
        w = []
        if q == 0:
            w = ['--- ParallelMeshInfo Utility ---', 'Parallel mesh data read serially.', 'Mesh Format Name: Tycho 2 Parallel Mesh',
                 'Mesh Version: 2', 'Num partitions %d' % n, 'Bytes Offset'] + [str(x) for x in off]
            for p in range(n):
                w += ['Partition %d' % p] + part_text(P[p], verbose)
            w += ['Parallel mesh data read in parallel.']
        w += ['Partition %d' % q] + part_text(P[q], verbose)
        d = diff(r.outs[q] or '', w)
        if d:
            ck.violation('parallel', 'rank %d: %s\n%s' % (q, d, text), cases.replay_files(dd))
    tl.shutil.rmtree(dd)


def main():
    ck = tl.Check('C23')
    ck.rule = 'a case is one mesh file printed; non-trivial if verbose and not empty'
    ck.assumptions = ['white space and empty lines are not part of the output that matters']
    exe = tl.build_utils(['SerialMeshInfo', 'ParallelMeshInfo'])

    def one(i):
        rng = random.Random('C23/%d/%d' % (ck.seed, i))
        if i % 3:
            serial(ck, exe['SerialMeshInfo'], i, rng)
        else:
            parallel(ck, exe['ParallelMeshInfo'], i, rng)
    tl.pmap(one, range(ck.n(1500, 15000)))
    return ck.finish()
