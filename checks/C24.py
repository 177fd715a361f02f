"""C24: what cannot be read or written completely is reported.

(a) sweep.x runs under a preloaded monitor that makes reads of the deck or the
mesh, or writes of the flux file, fail or transfer only a part, from a chosen
call on, on one or all ranks.  A run that ends with status zero must have left
exactly the file of the undisturbed run, in time; one that met no fault must
end with status zero.
(b) The mesh tools write under a file size limit, at every kind of position
from the first to the last byte, and read from and write to names that cannot
be read or written.  Status zero is only allowed with the complete file."""
import os
import random
import sys
import cases
import meshlib as ml
import tycholib as tl

LIMIT = ('import os, resource, signal, sys\n'
         'signal.signal(signal.SIGXFSZ, signal.SIG_IGN)\n'
         'n = int(sys.argv[1])\n'
         'resource.setrlimit(resource.RLIMIT_FSIZE, (n, n))\n'
         'os.execv(sys.argv[2], sys.argv[2:])\n')


def read(p):
    return open(p, 'rb').read() if os.path.isfile(p) else None


def solver(ck, exe, shim, i):
    rng = random.Random('C24/%d/%d' % (ck.seed, i))
    mdesc, m = cases.gen_mesh(rng, rng.choice(['tiny', 'small', 'small']))
    d = cases.gen_deck(rng, OutputFile='true', OutputFilename='out.psi', SourceIteration='true', iterMax=1,
                       snOrder=rng.choice([2, 4]))
    nr, th = cases.gen_ranks(rng, m), 1
    pv = ml.random_partition(rng, m, nr)
    dd = cases.write_case(ck, i, m, pv, nr, d, rng)
    text = cases.describe(m, mdesc, nr, th, d)
    r = cases.run_case(exe, dd, nr, th)
    if r.err:
        ck.violation('%s/undisturbed' % r.err, 'valid problem failed: %s\n%s' % (text, r.out[-1500:]), cases.replay_files(dd))
        return
    want = read(dd + '/out.psi')
    log = dd + '/log'
    writes = max((pv == k).sum() for k in range(nr)) + 1
    plan = []
    for _ in range(2):
        plan.append(('out.psi', rng.choice(['fail', 'short', 'short', 'once']), rng.choice([0, 1, writes - 1, rng.randrange(writes), rng.randrange(writes)])))
    plan.append(('m.pmesh', rng.choice(['eio', 'part']), rng.choice([0, 1, 2, 3, 4, 5, 6, 7])))
    plan.append(('x.deck', rng.choice(['eio', 'part']), rng.choice([0, 0, 1])))
    for target, kind, k in plan:
        rank = rng.choice([-1, -1, rng.randrange(nr)])
        # sometimes there already is a file
        old = rng.random() < 0.3
        if os.path.exists(log):
            os.unlink(log)
        if target == 'out.psi' and old:
            open(dd + '/out.psi', 'wb').write(want + b'old' if rng.random() < 0.5 else want)
        elif os.path.exists(dd + '/out.psi'):
            os.unlink(dd + '/out.psi')
        fault = '%s %s:%d on rank %d' % (target, kind, k, rank)
        r = tl.run_mpi(exe, ['m.pmesh', 'x.deck'], nr, th, cwd=dd,
                       prefix=['env', 'LD_PRELOAD=' + shim, 'IO_TARGET=' + target, 'IO_FAIL=%s:%d' % (kind, k),
                               'IO_RANK=%d' % rank, 'IO_LOG=' + log])
        hits = len((read(log) or b'').split(b'\n')) - 1 if os.path.exists(log) else 0
        got = read(dd + '/out.psi')
        ck.count('faults met: %s %s' % (target, kind), int(hits > 0))
        ck.case((mdesc, len(m.cells), nr, target, kind, k, rank, i), hits > 0, '%s; %s' % (text, fault))
        files = dict(cases.replay_files(dd), log=r.out.encode())
        what = '%s\n%s; %d faults\n%s' % (fault, text, hits, r.out[-800:])
        if r.timeout:
            ck.violation('hang/' + target, 'hangs after a fault: ' + what, files)
        elif r.rc == 0 and got != want:
            ck.violation('silent/' + target, 'ends with status 0, but the flux file %s: %s' % (
                'is missing' if got is None else 'has %d bytes of %d' % (len(got), len(want)) if len(got) != len(want)
                else 'differs from that of the undisturbed run', what), files)
        elif r.rc != 0 and not hits:
            ck.violation('spurious/' + target, 'fails without a fault: ' + what, files)
    tl.shutil.rmtree(dd)


def names(ck, exe, i):
    """sweep.x with outputs that cannot be created and inputs that cannot be read"""
    rng = random.Random('C24n/%d/%d' % (ck.seed, i))
    mdesc, m = cases.gen_mesh(rng, 'tiny')
    nr = cases.gen_ranks(rng, m)
    pv = ml.random_partition(rng, m, nr)
    kind = ['out-dir', 'out-missing-dir', 'out-below-file', 'mesh-dir', 'deck-dir', 'mesh-missing', 'deck-missing'][i % 7]
    out = {'out-dir': 'some.dir', 'out-missing-dir': 'none.dir/out.psi', 'out-below-file': 'm.pmesh/out.psi'}.get(kind, 'out.psi')
    d = cases.gen_deck(rng, OutputFile='true', OutputFilename=out, SourceIteration='true', iterMax=1, snOrder=2)
    dd = cases.write_case(ck, 'n%d' % i, m, pv, nr, d, rng)
    os.mkdir(dd + '/some.dir')
    open(dd + '/some.dir/keep', 'w').write('keep')
    args = {'mesh-dir': ['some.dir', 'x.deck'], 'deck-dir': ['m.pmesh', 'some.dir'], 'mesh-missing': ['no.pmesh', 'x.deck'],
            'deck-missing': ['m.pmesh', 'no.deck']}.get(kind, ['m.pmesh', 'x.deck'])
    mesh = read(dd + '/m.pmesh')
    r = tl.run_mpi(exe, args, nr, 1, cwd=dd)
    text = '%s: %s' % (kind, cases.describe(m, mdesc, nr, 1, d))
    ck.case((kind, nr, i), True, text)
    ck.count('names that cannot be used')
    files = dict(cases.replay_files(dd), log=r.out.encode())
    if r.timeout:
        ck.violation('hang/' + kind, '%s\n%s' % (text, r.out[-800:]), files)
    elif r.rc == 0:
        ck.violation('silent/' + kind, 'ends with status 0: %s\n%s' % (text, r.out[-800:]), files)
    elif read(dd + '/m.pmesh') != mesh or read(dd + '/some.dir/keep') != b'keep':
        ck.violation('destroyed/' + kind, 'changed other files: ' + text, files)
    tl.shutil.rmtree(dd)


def tools(ck, exe, i):
    rng = random.Random('C24t/%d/%d' % (ck.seed, i))
    mdesc, m = cases.gen_mesh(rng, rng.choice(['tiny', 'tiny', 'small', 'mid']))
    dd = ck.sub('t%d' % i)
    m.write(dd + '/a.smesh')
    tool = ['PartitionColumns', 'PartitionMetis', 'RefineSerialMesh'][i % 3]
    n = min(rng.randint(1, 4), len(m.cells))
    pre = {'PartitionColumns': ['1', str(n)], 'PartitionMetis': [str(n)], 'RefineSerialMesh': []}[tool]
    text = '%s %s on %s %d cells' % (tool, ' '.join(pre), mdesc, len(m.cells))
    r = tl.run_tool(exe[tool], pre + ['a.smesh', 'b.out'], cwd=dd)
    want = read(dd + '/b.out')
    files = cases.replay_files(dd)
    if r.timeout or r.rc != 0 or not want:
        ck.violation('undisturbed/' + tool, 'fails without a fault: %s\n%s' % (text, r.out[-800:]), files)
        return
    s = len(want)
    for lim in {0, s - 1, s - 8, max(0, s - rng.randint(1, 4096)), rng.randrange(s), rng.randrange(s), s // 4096 * 4096, s, s + 1}:
        if lim < 0:
            continue
        if rng.random() < 0.7:
            os.unlink(dd + '/b.out')
        r = tl.run_tool(sys.executable, ['-c', LIMIT, lim, exe[tool]] + pre + ['a.smesh', 'b.out'], cwd=dd)
        got = read(dd + '/b.out')
        ck.case((text, i, lim), lim < s, '%s, limit %d of %d bytes' % (text, lim, s))
        ck.count('limited writes: ' + ('too small' if lim < s else 'enough'))
        what = '%s, limit %d, %d bytes needed\n%s' % (text, lim, s, r.out[-800:])
        if r.timeout:
            ck.violation('hang/' + tool, what, files)
        elif r.rc == 0 and got != want:
            ck.violation('silent/' + tool, 'ends with status 0, but the file has %s bytes: %s' % (got is not None and len(got), what), files)
        elif r.rc != 0 and lim >= s:
            ck.violation('spurious/' + tool, 'fails although there is room: ' + what, files)
        if got is None:
            open(dd + '/b.out', 'wb').close()
    os.mkdir(dd + '/some.dir')
    for a, b in (('a.smesh', 'some.dir'), ('a.smesh', 'none.dir/x'), ('a.smesh', 'a.smesh/x'), ('some.dir', 'c.out'), ('none', 'c.out')):
        r = tl.run_tool(exe[tool], pre + [a, b], cwd=dd)
        ck.case((text, i, a, b), True)
        ck.count('names that cannot be used')
        if r.timeout or r.rc == 0:
            ck.violation(('hang/' if r.timeout else 'silent/') + tool, '%s reading %s writing %s ends with status %s\n%s' % (
                text, a, b, r.rc, r.out[-800:]), files)
    tl.shutil.rmtree(dd)


def converters(ck, exe, i):
    """mesh converters (with the stand-in for MOAB): limits and names for what they write themselves"""
    rng = random.Random('C24c/%d/%d' % (ck.seed, i))
    mdesc, m = cases.gen_mesh(rng, rng.choice(['tiny', 'small']))
    dd = ck.sub('c%d' % i)
    name = 'm' * rng.randint(1, 80)
    if i % 2:
        tool, out = 'ParallelMeshToMoab', name + '.visit'
        n = min(rng.choice([1, 4, 12, 20]), len(m.cells))
        ml.write_pmesh(dd + '/' + name + '.pmesh', ml.make_parts(m, ml.random_partition(rng, m, n), n, rng))
        args = [name + '.pmesh']
    else:
        tool, out = 'MoabToSerialMesh', name + '.smesh'
        open(dd + '/a.txt', 'w').write(''.join('vertex %.17g %.17g %.17g\n' % tuple(x) for x in m.nodes) + ''.join('tet %d %d %d %d\n' % tuple(c) for c in m.cells))
        args = ['a.txt', out]
    if exe[tool] is None:
        ck.inconc(tool + ' does not compile with the stand-in')
        return
    open(dd + '/menu', 'w').write('2\n')
    go = lambda pre=(): tl.run_tool('/bin/sh', ['-c', 'exec "$@" < menu', 'sh'] + list(pre) + [exe[tool]] + args, cwd=dd)
    text = '%s %s, %d cells' % (tool, mdesc, len(m.cells))
    r = go()
    want = read(dd + '/' + out)
    files = cases.replay_files(dd)
    if r.timeout or r.rc != 0 or not want:
        ck.violation('undisturbed/' + tool, 'fails without a fault: %s\n%s' % (text, r.out[-800:]), files)
        return
    s = len(want)
    for lim in sorted({0, s - 1, rng.randrange(s), rng.randrange(s), s}):
        os.unlink(dd + '/' + out)
        r = go([sys.executable, '-c', LIMIT, str(lim)])
        got = read(dd + '/' + out)
        ck.case((text, i, lim), lim < s, '%s, limit %d, %s needs %d' % (text, lim, out[-6:], s))
        ck.count('limited writes of converters')
        if r.timeout:
            ck.violation('hang/' + tool, '%s, limit %d' % (text, lim), files)
        elif r.rc == 0 and got != want:
            ck.violation('silent/' + tool, 'ends with status 0, but %s has %s of %d bytes: %s, limit %d\n%s' % (
                out, got is not None and len(got), s, text, lim, r.out[-600:]), files)
        if got is None:
            open(dd + '/' + out, 'wb').close()
    os.unlink(dd + '/' + out)
    os.mkdir(dd + '/' + out)
    r = go()
    ck.case((text, i, 'dir'), True)
    ck.count('names that cannot be used')
    if r.timeout or r.rc == 0:
        ck.violation(('hang/' if r.timeout else 'silent/') + tool, '%s cannot be written (a directory), status %s: %s\n%s' % (out, r.rc, text, r.out[-600:]), files)
    tl.shutil.rmtree(dd)


def main():
    ck = tl.Check('C24')
    ck.rule = ('a case is one run with one planned fault (file, kind, call, rank; size limit; unusable name); non-trivial if the fault was met '
               '(or the limit too small)')
    ck.assumptions = ['faults are failed and partial reads and writes; what the disk loses after close, or what Open MPI ignores when '
                      'it closes, is not judged', 'the undisturbed run is deterministic (C03)']
    exe = tl.build_sweep('plain')
    shim = tl.build_shim(tl.HARN + '/shim_io.c')
    util = tl.build_utils(['PartitionColumns', 'PartitionMetis', 'RefineSerialMesh'])
    tl.pmap(lambda i: solver(ck, exe, shim, i), range(ck.n(70, 1500)))
    tl.pmap(lambda i: names(ck, exe, i), range(ck.n(28, 200)))
    tl.pmap(lambda i: tools(ck, util, i), range(ck.n(45, 900)))
    conv = {t: tl.build_converter(t) for t in ('MoabToSerialMesh', 'ParallelMeshToMoab')}
    tl.pmap(lambda i: converters(ck, conv, i), range(ck.n(24, 400)))
    return ck.finish()
