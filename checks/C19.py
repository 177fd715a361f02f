"""C19: energy groups are independent copies of the one-group problem.

The source of each group of the real sweep.x is multiplied by a power of two of
its own (or by zero, or negated).  Every operation on one group is then exact
up to that factor, so any mixing of groups, whatever its size, shows as a
difference in the last bit.  The one-group run is the second reference."""
import os
import random
import re
import numpy as np
import cases
import meshlib as ml
import tycholib as tl

DIRECT = ['TraverseGraph', 'OriginalTycho1', 'OriginalTycho2']
TYPES = DIRECT + ['PBJ', 'PBJOuter', 'PBJSI', 'Schur', 'SchurOuter', 'SchurKrylov']
WRAP = '-Wl,--wrap=_ZN7Problem9getSourceER7PsiData'


def run(exe, dd, nr, th, G, d, scale, name):
    open('%s/%s.deck' % (dd, name), 'w').write(tl.deck_text(dict(d, nGroups=G, OutputFilename=name + '.psi')))
    env = {'MON_SCALE': ','.join(repr(float(s)) for s in scale), 'MON_SCALE_LOG': dd + '/' + name} if scale else {}
    return cases.run_case(exe, dd, nr, th, name + '.deck', name + '.psi', env=env)


def one(ck, exe, i):
    rng = random.Random('C19/%d/%d' % (ck.seed, i))
    st = TYPES[i % len(TYPES)] if i % 2 else rng.choice(DIRECT)
    si = rng.choice(['true', 'true', 'false'])
    mdesc, m = cases.gen_mesh(rng, cases.sz(rng, i, ['tiny', 'small', 'small', 'mid'] if st in DIRECT else ['tiny', 'small'], 17))
    d = cases.gen_deck(rng, SweepType=st, SourceIteration=si, snOrder=rng.choice([2, 2, 4]))
    direct = st in DIRECT and si == 'true'
    if not direct:
        d.update(iterMax=1000, errMax=1e-12, DD_IterMax=1000, DD_ErrMax=1e-13)
        for k in '12':
            d['sigmaS' + k] = d['sigmaT' + k] * rng.choice([0.0, 0.3, 0.6])
    G = rng.choice([2, 2, 3, 3, 4, 5, 7, 16])
    nr = cases.gen_ranks(rng, m)
    th = cases.gen_threads(rng, m, d, nr)
    pv = ml.random_partition(rng, m, nr)
    mode = rng.choice(['equal', 'scaled', 'scaled', 'scaled'])
    scale = [1.0] * G
    if mode == 'scaled':
        scale = [rng.choice([0.0, 1.0]) if rng.random() < 0.2 else rng.choice([1, -1]) * 2.0 ** rng.randint(-9, 9) for _ in range(G)]
        if not any(scale):
            scale[rng.randrange(G)] = 1.0
    text = '%d groups with sources x %s, %s' % (G, scale, cases.describe(m, mdesc, nr, th, d))
    dd = cases.write_case(ck, i, m, pv, nr, d, rng)
    psi = {}
    for name, g, s in (('many', G, scale if mode == 'scaled' else None), ('one', 1, None)):
        r = run(exe, dd, nr, th, g, d, s, name)
        if r.err:
            ck.violation('%s/%s' % (r.err, st), 'valid problem failed: %s\n%s' % (text, r.out[-1500:]), cases.replay_files(dd))
            return
        psi[name] = r.psi
        if name == 'many':
            out = r.out
    logs = [os.path.exists('%s/many.%d' % (dd, q)) for q in range(nr)]
    if mode == 'scaled' and not all(logs):
        if any(logs):
            ck.inconc('only some ranks scaled their source')
            return
        # the source is not made where the monitor hooks in: groups are equal
        scale = [1.0] * G
        mode = 'equal'
    many, ref = psi['many'], psi['one']
    shape = (len(m.cells), 2 * d['snOrder'] ** 2, 4)
    if many.shape != shape + (G,) or ref.shape != shape + (1,):
        ck.violation('shape', 'flux has shapes %s and %s: %s' % (many.shape, ref.shape, text), cases.replay_files(dd))
        return
    top = np.abs(ref).max()
    ck.case((mdesc, len(m.cells), nr, th, G, mode, sorted(d.items())), top > 0, text)
    ck.count('%s, %s sources' % ('direct' if direct else 'iterative', mode))
    ck.count('groups compared', G)
    ck.count('values compared bit for bit', many.size)
    base = next(g for g in range(G) if scale[g] != 0)
    for g in range(G):
        # within the run
        if scale[g] == 0:
            want = np.zeros(shape)
        else:
            want = many[..., base] * (scale[g] / scale[base])
        bad = ~((many[..., g] == want) & np.isfinite(want))
        if bad.any():
            w = np.unravel_index(np.argmax(bad), bad.shape)
            ck.violation('mixed', 'group %d is not group %d times %g: %d values differ, first (cell,angle,vertex)=%s %r instead of %r\n%s' % (
                g, base, scale[g] / scale[base], bad.sum(), w, many[w][g], want[w], text), cases.replay_files(dd))
            return
    g0 = many[..., base] / scale[base]
    if direct:
        bad = g0 != ref[..., 0]
    else:
        bad = np.abs(g0 - ref[..., 0]) > 1e-8 * top
    if bad.any():
        w = np.unravel_index(np.argmax(bad), bad.shape)
        ck.violation('not-one-group', '%d values differ from the one-group run, first (cell,angle,vertex)=%s %r instead of %r\n%s' % (
            bad.sum(), w, g0[w], ref[w][0], text), cases.replay_files(dd))
    mt = re.search(r'Diff between groups: (\S+)', out)
    if mt:
        dm, dt = np.abs(many - many[..., :1]).max(), np.abs(many[..., 0]).max()
        dm = dm / dt if dt > 0 else dm
        ck.count('reported group differences')
        if not abs(float(mt.group(1)) - dm) <= 2e-6 * dm:
            ck.violation('diff', 'reported group difference %s, in the flux file it is %g\n%s' % (mt.group(1), dm, text), cases.replay_files(dd))
    else:
        ck.violation('diff', 'no group difference reported: ' + text, cases.replay_files(dd))
    tl.shutil.rmtree(dd)


def main():
    ck = tl.Check('C19')
    ck.rule = 'a case is one random (mesh, partition, ranks, threads, groups, factors, deck) and its one-group run; non-trivial if the flux is not zero'
    ck.assumptions = ['round to nearest arithmetic without flush to zero', 'the source is made by Problem::getSource (else only equal groups are compared)']
    exe = tl.build_sweep('plain', [tl.HARN + '/mon_source.cc'], 'sweep_src', link=[WRAP])
    tl.pmap(lambda i: one(ck, exe, i), range(ck.n(130, 2500)))
    return ck.finish()
