"""C26: the settings of the build change neither results nor refusals.

The same random problems are run by builds of the real program with the
assertions off, without PETSc, without optimisation, and by another
compiler (with NDEBUG); fluxes, iterations and printed errors must be those of the default
build.  Without PETSc the methods that need it must be refused.  The mesh tools,
built the same ways, must write the same bytes and print the same text."""
import os
import random
import numpy as np
import cases
import meshlib as ml
import tycholib as tl
import C03
import C16

TOL = 1e-9
KRYLOV = ['Schur', 'SchurOuter', 'SchurKrylov']
TYPES = ['TraverseGraph', 'OriginalTycho1', 'OriginalTycho2', 'PBJ', 'PBJOuter', 'PBJSI'] + KRYLOV
HOW = {'noassert': 'ASSERT_ON=0', 'nopetsc': 'USE_PETSC=0 ASSERT_ON=0', 'O0': '-O0', 'clang': 'clang++ -O2 -DNDEBUG'}
TOOLS = ['PartitionColumns', 'PartitionMetis', 'RefineSerialMesh', 'SerialMeshInfo', 'ParallelMeshInfo']


def needs_petsc(d):
    return d['SweepType'] in KRYLOV or (d['SourceIteration'] == 'false' and d['SweepType'] != 'PBJSI')


def one(ck, exes, i):
    rng = random.Random('C26/%d/%d' % (ck.seed, i))
    st = TYPES[i % len(TYPES)]
    mdesc, m = cases.gen_mesh(rng, cases.sz(rng, i, ['tiny', 'small', 'small', 'mid'], 23))
    d = cases.gen_deck(rng, SweepType=st, SourceIteration=rng.choice(['true', 'true', 'false']), iterMax=rng.choice([1, 2, 5, 30]),
                       errMax=rng.choice([1e-300, 1e-5, 0.02]), DD_IterMax=rng.choice([1, 3, 40]), DD_ErrMax=rng.choice([1e-3, 1e-8]),
                       intraAngleP=rng.randrange(5), interAngleP=rng.randrange(3))
    nr = cases.gen_ranks(rng, m)
    th = rng.choice([1, 1, 2, 3])
    if st == 'OriginalTycho2' and nr * th > 8:
        th = 1
    pv = ml.random_partition(rng, m, nr)
    dd = cases.write_case(ck, str(i), m, pv, nr, d, rng)
    text = cases.describe(m, mdesc, nr, th, d)
    files = cases.replay_files(dd)
    ref = cases.run_case(exes['plain'], dd, nr, th)
    if ref.err:
        ck.count('runs that fail in the default build (not compared)')
        return
    st0 = C03.stats(ref.out)
    scale = np.abs(ref.psi).max()
    kry = needs_petsc(d)
    knife = any(abs(e - d['errMax']) < 1e-6 * d['errMax'] for _, e in st0[0])
    for v, how in HOW.items():
        if v not in exes or (v == 'clang' and th > 1):
            continue
        if v == 'O0' and len(m.cells) > 400:
            continue
        r = cases.run_case(exes[v], dd, nr, th, timeout=90 if v == 'O0' else 45)
        ck.count('runs of the build with ' + how)
        sig = (v, mdesc, len(m.cells), nr, th, sorted(d.items()))
        if v == 'nopetsc' and kry:
            ck.case(sig, True)
            ck.count('runs that need PETSc without it')
            if r.timeout:
                ck.violation('petsc-hang', 'a method that needs PETSc hangs without it: ' + text, files)
            elif r.rc == 0:
                ck.violation('petsc-accepted', 'a method that needs PETSc is accepted without it: ' + text, files)
            elif 'PETSc' not in r.out:
                ck.violation('petsc-silent', 'no message says that PETSc is missing: %s\n%s' % (text, r.out[-800:]), files)
            if os.path.exists(dd + '/out.psi'):
                ck.violation('petsc-wrote', 'a flux file is written without PETSc: ' + text, files)
            continue
        if r.err:
            ck.violation(v + '/' + r.err, 'a problem that the default build solves fails with %s: %s\n%s' % (how, text, r.out[-1200:]), files)
            continue
        s = C03.stats(r.out)
        if r.psi.shape != ref.psi.shape:
            ck.violation(v + '/shape', 'shape %s instead of %s with %s: %s' % (r.psi.shape, ref.psi.shape, how, text), files)
            continue
        diff = np.abs(r.psi - ref.psi).max()
        same = bool((r.psi == ref.psi).all())
        ck.count('bitwise equal fluxes', int(same))
        ck.case(sig, scale > 0, {'variant': how, 'case': text, 'max difference': float(diff)})
        if not same:
            ck.count('not bitwise with ' + how)
        if [a for a, _ in s[0]] != [a for a, _ in st0[0]] and (same or not knife):
            ck.violation(v + '/iterations', 'iterations differ with %s: %s vs %s\n%s' % (how, s[0], st0[0], text), files)
        elif not diff <= (1e-6 if kry else TOL) * scale and not knife:
            ck.violation(v + '/result', 'psi differs with %s by %g of %g\n%s' % (how, diff, scale, text), files)
        elif same and s != st0 and str(s) != str(st0):
            ck.violation(v + '/printed', 'the same flux but other errors printed with %s: %s vs %s\n%s' % (how, s, st0, text), files)
    tl.shutil.rmtree(dd, ignore_errors=True)


def tools(ck, util, i):
    rng = random.Random('C26/t/%d/%d' % (ck.seed, i))
    mdesc, m = cases.gen_mesh(rng, cases.sz(rng, i, ['tiny', 'small', 'mid'], 17))
    dd = ck.sub('t%d' % i)
    m.write(dd + '/in')
    nr = min(rng.choice([1, 2, 3, 5]), len(m.cells))
    ml.write_pmesh(dd + '/pin', ml.make_parts(m, ml.random_partition(rng, m, nr), nr, rng))
    tool = TOOLS[i % len(TOOLS)]
    args = {'PartitionColumns': [rng.randint(1, 3), rng.randint(1, 3), 'in', 'out'], 'PartitionMetis': [nr, 'in', 'out'],
            'RefineSerialMesh': ['in', 'out'], 'SerialMeshInfo': ['in', 'verbose'], 'ParallelMeshInfo': ['pin', 'verbose']}[tool]
    got = {}
    for v in util:
        if os.path.exists(dd + '/out'):
            os.unlink(dd + '/out')
        if tool == 'ParallelMeshInfo':
            r = tl.run_split(util[v][tool], args, nr, dd)
            r.out = '\n---\n'.join(str(o) for o in r.outs)
        else:
            r = tl.run_tool(util[v][tool], args, cwd=dd)
        b = open(dd + '/out', 'rb').read() if os.path.exists(dd + '/out') else None
        got[v] = ('hang' if r.timeout else r.rc, b, r.out)
    text = '%s %s (%d cells) %s' % (tool, mdesc, len(m.cells), args)
    files = {n: open(dd + '/' + n, 'rb').read() for n in ('in', 'pin')}
    for v in util:
        if v == 'plain':
            continue
        ck.count('tool runs compared')
        ck.case((v, text), True, text)
        for k, what in enumerate(('exit status', 'file written', 'text printed')):
            if got[v][k] != got['plain'][k]:
                ck.violation('tool/%s/%s' % (v, what.replace(' ', '-')), 'the %s of %s differs with %s: %s vs %s' % (
                    what, text, HOW[v], str(got[v][k])[:300], str(got['plain'][k])[:300]), files)
                break
    tl.shutil.rmtree(dd, ignore_errors=True)


def main():
    ck = tl.Check('C26')
    ck.rule = ('a case is one problem and one other build of the program or of a tool; distinct by both; nontrivial when the flux is not zero')
    ck.assumptions = ['clang has no OpenMP runtime here: its build is run with one thread per rank',
                      'the default build is judged by the other properties']
    exes = {'plain': tl.build_sweep('plain')}
    util = {'plain': tl.build_utils(TOOLS)}
    for v in HOW:
        try:
            exes[v] = tl.build_sweep(v)
        except tl.HarnessError as e:
            ck.violation(v + '/build', 'does not build with %s: %s' % (HOW[v], e))
    for v in ('O0', 'clang'):
        try:
            util[v] = tl.build_utils(TOOLS, v)
        except tl.HarnessError as e:
            ck.violation(v + '/build-tools', 'the tools do not build with %s: %s' % (HOW[v], e))
    tl.pmap(lambda i: one(ck, exes, i), range(ck.n(90, 1500)))
    tl.pmap(lambda i: tools(ck, util, i), range(ck.n(60, 800)))
    # what is refused stays refused
    for v in ('noassert', 'nopetsc'):
        if v in exes:
            tl.pmap(lambda i: C16.wrong(ck, exes[v], i), range(ck.n(24, 300)))
    return ck.finish()
