"""C25: mesh converters keep cells, nodes, faces and materials.

The real converters, compiled against a stand-in for MOAB (which is not
installed) that keeps its contract and a text format, convert random meshes;
an offline oracle compares everything on both sides.  Half of the runs are of
builds with AddressSanitizer and UndefinedBehaviorSanitizer, and memcheck
watches the menu."""
import itertools
import os
import random
import numpy as np
import cases
import meshlib as ml
import tycholib as tl

INV = ml.INVALID
ENV = {'ASAN_OPTIONS': 'detect_leaks=0', 'UBSAN_OPTIONS': 'print_stacktrace=1'}


def write_text(path, m, rng):
    # entities that were deleted leave holes in the handles
    holes = rng.choice([0.0, 0.0, 0.1, 0.5])
    L, pos = [], []

    def put(out, dim, lines, where=None):
        for l in lines:
            while rng.random() < holes:
                out.append('hole %d' % dim)
            if where is not None:
                where.append(len(out))
            out.append(l)
    put(L, 0, ['vertex %.17g %.17g %.17g' % tuple(x) for x in m.nodes], pos)
    T, S = [], []
    put(T, 3, ['tet %d %d %d %d' % tuple(pos[n] for n in c) for c in m.cells])
    # faces that exist before they are asked for
    tri = {tuple(int(x) for x in f) for f in m.fnodes}
    some = rng.sample(sorted(tri), rng.choice([0, 0, 1, len(tri)]))
    put(S, 2, ['tri %d %d %d' % tuple(pos[n] for n in t) for t in some])
    T = S + T if rng.random() < 0.5 else T + S
    open(path, 'w').write('\n'.join(L + T) + '\n')
    return len(some)


def inside(m):
    """per cell: 2 inside of the inner cube, 1 outside, 0 too close to tell"""
    c = m.nodes[m.cells].mean(axis=1)
    t = 1e-9 * (1 + np.abs(c))
    yes = ((c > 25 + t) & (c < 75 - t)).all(axis=1)
    no = ((c < 25 - t) | (c > 75 + t)).any(axis=1)
    return np.where(yes, 2, np.where(no, 1, 0))


def compare(m, q, menu):
    bad = []

    def err(key, *a):
        if len(bad) < 4:
            bad.append((key, ' '.join(str(x) for x in a)))
    F = {tuple(sorted(int(x) for x in f)): sorted(int(x) for x in c if int(x) != INV) for f, c in zip(m.fnodes, m.fcells)}
    if (len(q.cells), len(q.nodes), len(q.fcells)) != (len(m.cells), len(m.nodes), len(F)):
        err('counts', len(q.cells), 'cells', len(q.nodes), 'nodes', len(q.fcells), 'faces instead of', len(m.cells), len(m.nodes), len(F))
        return bad
    if not (q.nodes == m.nodes).all():
        err('coords', 'coordinates of nodes differ')
    want = inside(m) if menu == 2 else np.ones(len(m.cells), int)
    fid = {}
    for f in range(len(q.fcells)):
        k = tuple(sorted(int(x) for x in q.fnodes[f]))
        if k in fid or k not in F:
            err('face', 'face', f, 'with nodes', k, 'appears twice' if k in fid else 'is no face')
            return bad
        fid[k] = f
        c = [int(x) for x in q.fcells[f]]
        if sorted(x for x in c if x != INV) != F[k]:
            err('face-cells', 'face', f, 'has cells', c, 'instead of', F[k])
        if INV in c and c[1] != INV:
            err('face-cells', 'boundary face', f, 'names its cell second')
    for i in range(len(q.cells)):
        n = sorted(int(x) for x in q.cells[i])
        if n != sorted(int(x) for x in m.cells[i]):
            err('cell-nodes', 'cell', i, 'has nodes', n, 'instead of', sorted(m.cells[i]))
            continue
        w = sorted(fid.get(t, -1) for t in itertools.combinations(n, 3))
        if sorted(int(x) for x in q.cfaces[i]) != w:
            err('cell-faces', 'cell', i, 'has faces', q.cfaces[i], 'instead of', w)
        if want[i] and int(q.mats[i]) != want[i]:
            err('material', 'cell', i, 'with centroid', m.nodes[m.cells[i]].mean(axis=0), 'has material', q.mats[i], 'instead of', want[i])
    return bad


def from_moab(ck, exes, col, i):
    rng = random.Random('C25/%d/%d' % (ck.seed, i))
    desc, m = cases.gen_mesh(rng, cases.sz(rng, i, ['tiny', 'small', 'small'], 23))
    if rng.random() < 0.5:
        # around the faces of the inner cube
        m.nodes = m.nodes - m.nodes.mean(axis=0) + np.array([rng.choice([25.0, 50.0, 75.0, 50.0]) for _ in range(3)])
        desc += ' moved'
    variant = rng.choice(['plain', 'asan'])
    menu = rng.choice([1, 2, 2])
    dd = ck.sub('m%d' % i)
    tris = write_text(dd + '/a.txt', m, rng)
    open(dd + '/menu', 'w').write('%d\n' % menu)
    text = 'MoabToSerialMesh (%s) menu %d, %s: %d cells, %d faces given' % (variant, menu, desc, len(m.cells), tris)
    r = tl.run_tool('/bin/sh', ['-c', 'exec "$0" "$@" < menu', exes['MoabToSerialMesh', variant], 'a.txt', 'b.smesh'], cwd=dd, env=ENV)
    ck.case(text + str(i), True, text)
    ck.count('cells converted', len(m.cells))
    files = cases.replay_files(dd)
    if r.timeout or r.rc != 0:
        ck.violation('abort/MoabToSerialMesh', 'conversion failed: %s\n%s' % (text, r.out[-1500:]), files)
        return
    try:
        q = ml.read_smesh(dd + '/b.smesh')
    except (AssertionError, OSError, ValueError) as e:
        ck.violation('file', 'bad mesh file: %s\n%s' % (e, text), files)
        return
    bad = compare(m, q, menu)
    for key, t in bad:
        ck.violation(key, '%s\n%s' % (t, text), files)
    if not bad and i % 4 == 0:
        # and the other tools take it
        r = tl.run_tool(col, ['1', '2', 'b.smesh', 'b.pmesh'], cwd=dd)
        if r.timeout or r.rc != 0:
            ck.violation('unusable', 'the mesh cannot be partitioned: %s\n%s' % (text, r.out[-800:]), files)
    if not bad:
        tl.shutil.rmtree(dd)


def menus(ck, exes, i):
    """what is not on the menu converts nothing"""
    rng = random.Random('C25n/%d/%d' % (ck.seed, i))
    m = ml.kuhn_mesh(rng, 1, 1, 1)
    dd = ck.sub('n%d' % i)
    write_text(dd + '/a.txt', m, rng)
    what = ['', '3\n', '0\n', '-1\n', 'abc\n', '12\n', '\n', '22'][i % 8]
    open(dd + '/menu', 'w').write(what)
    r = tl.run_tool('/bin/sh', ['-c', 'exec valgrind -q --error-exitcode=0 --log-file=vg.log "$0" "$@" < menu',
                                exes['MoabToSerialMesh', 'debug'], 'a.txt', 'b.smesh'], cwd=dd)
    text = 'MoabToSerialMesh with menu choice %r' % what
    ck.case(text, True, text)
    ck.count('wrong menu choices')
    files = cases.replay_files(dd)
    if r.timeout or r.rc < 0:
        ck.violation('menu', '%s ends with %s\n%s' % (text, r.rc, r.out[-800:]), files)
    elif os.path.exists(dd + '/b.smesh'):
        ck.violation('menu', '%s writes a mesh' % text, files)
    elif 'MoabToSerialMesh.cc' in open(dd + '/vg.log').read():
        ck.violation('menu-uninitialised', '%s\n%s' % (text, open(dd + '/vg.log').read()[:1500]), files)
    tl.shutil.rmtree(dd)


def tets(path):
    return [[float(x) for x in l.split()[1:]] for l in open(path) if l.startswith('tet')]


def to_moab(ck, exes, i):
    rng = random.Random('C25t/%d/%d' % (ck.seed, i))
    desc, m = cases.gen_mesh(rng, cases.sz(rng, i, ['tiny', 'small', 'small'], 23))
    variant = rng.choice(['plain', 'asan'])
    dd = ck.sub('t%d' % i)
    name = rng.choice(['m', 'mesh', 'some.mesh', 'a.smesh.b'])
    if i % 2:
        tool, f = 'SerialMeshToMoab', name + '.smesh'
        m.write(dd + '/' + f)
        want = {name + '.vtk': list(range(len(m.cells)))}
    else:
        tool, f = 'ParallelMeshToMoab', name + '.pmesh'
        nr = min(rng.randint(1, 12), len(m.cells))
        pv = ml.random_partition(rng, m, nr)
        parts = ml.make_parts(m, pv, nr, rng)
        ml.write_pmesh(dd + '/' + f, parts)
        want = {'%s-%dp.vtk' % (name, k): [c[8] for c in parts[k].cells] for k in range(nr)}
    text = '%s (%s) %s: %s, %d cells' % (tool, variant, f, desc, len(m.cells))
    before = set(os.listdir(dd))
    r = tl.run_tool(exes[tool, variant], [f], cwd=dd, env=ENV)
    ck.case(text + str(i), True, text)
    ck.count('cells converted', len(m.cells))
    files = cases.replay_files(dd)
    if r.timeout or r.rc != 0:
        ck.violation('abort/' + tool, 'conversion failed: %s\n%s' % (text, r.out[-1500:]), files)
        return
    got = set(os.listdir(dd)) - before
    expect = set(want) | ({name + '.visit'} if tool == 'ParallelMeshToMoab' else set())
    if got != expect:
        ck.violation('files', 'writes %s instead of %s: %s' % (sorted(got), sorted(expect), text), files)
        return
    for p, cells in want.items():
        t = tets(dd + '/' + p)
        w = [[float(x) for v in m.cells[c] for x in m.nodes[v]] for c in cells]
        if t != w:
            ck.violation('cells/' + tool, '%s holds %d cells, %d expected, or other coordinates: %s' % (p, len(t), len(w), text), files)
            return
    if tool == 'ParallelMeshToMoab':
        l = open(dd + '/' + name + '.visit').read().split('\n')
        if l != ['!NBLOCKS %d' % len(want)] + ['%s-%dp.vtk' % (name, k) for k in range(len(want))] + ['']:
            ck.violation('visit', 'index file lists %s: %s' % (l, text), files)
            return
    tl.shutil.rmtree(dd)


def main():
    ck = tl.Check('C25')
    ck.rule = 'a case is one conversion of one random mesh (shape, position, faces given, partition), or one menu choice'
    ck.assumptions = ['MOAB is replaced by a stand-in with the same interface and contract (harness/moab); its own file formats are not judged',
                      'the order of faces, and of nodes in a cell or face, is free; cells whose centroid is within 1e-9 of the inner cube may have either material']
    exes = {(t, v): tl.build_converter(t, v) for t in ('MoabToSerialMesh', 'SerialMeshToMoab', 'ParallelMeshToMoab') for v in ('plain', 'asan')}
    exes['MoabToSerialMesh', 'debug'] = tl.build_converter('MoabToSerialMesh', 'debug')
    if None in exes.values():
        # code that uses more of MOAB than the stand-in has is not wrong
        ck.inconc('a converter does not compile against the stand-in for MOAB')
        return ck.finish()
    col = tl.build_util('PartitionColumns')
    tl.pmap(lambda i: from_moab(ck, exes, col, i), range(ck.n(160, 3000)))
    tl.pmap(lambda i: menus(ck, exes, i), range(ck.n(8, 16)))
    tl.pmap(lambda i: to_moab(ck, exes, i), range(ck.n(160, 3000)))
    return ck.finish()
