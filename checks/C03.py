"""C03: the result does not depend on how the work is divided and scheduled,
and repeating a run repeats its result bit for bit."""
import random
import re
import numpy as np
import cases
import meshlib as ml
import tycholib as tl

TOL = 1e-11
IT = re.compile(r'iteration: (\d+)\s+error: (\S+)')


def stats(out):
    it = [(int(a), float(b)) for a, b in IT.findall(out)]
    e = re.search(r'L2 Relative Error: (\S+)', out)
    g = re.search(r'Diff between groups: (\S+)', out)
    return it, float(e.group(1)) if e else None, float(g.group(1)) if g else None


def close(a, b):
    if a is None or b is None:
        return False
    if np.isnan(a) or np.isnan(b):
        return np.isnan(a) and np.isnan(b)
    return abs(a - b) <= 1e-5 * max(abs(a), abs(b)) + 1e-12


def one(ck, exe, i):
    rng = random.Random('C03/%d/%d' % (ck.seed, i))
    mdesc, m = cases.gen_mesh(rng, cases.sz(rng, i, ['small', 'small', 'mid'], 11))
    base = cases.gen_deck(rng, iterMax=rng.choice([1, 2, 4]), errMax=rng.choice([1e-300, 1e-300, 0.05]),
                          GaussElim='Original', SweepType='TraverseGraph', MPIType='TychoTwoSided', maxCellsPerStep=100)
    w = cases.wide(rng, i, 9)
    if w:
        mdesc, m, base['snOrder'], base['nGroups'] = w
    dd = cases.write_case(ck, '%d-base' % i, m, np.zeros(len(m.cells), int), 1, base, rng, shuffle=False)
    ref = cases.run_case(exe, dd, 1, 1)
    text0 = cases.describe(m, mdesc, 1, 1, base)
    if ref.err:
        ck.violation(ref.err, 'valid problem failed: %s\n%s' % (text0, ref.out[-1500:]), cases.replay_files(dd))
        return
    scale = np.abs(ref.psi).max()
    st0 = stats(ref.out)
    # an error so close to errMax that rounding decides cannot be compared
    knife = any(abs(e - base['errMax']) < 1e-6 * base['errMax'] for _, e in st0[0])
    for v in range(4):
        d = dict(base)
        over = cases.gen_deck(rng)
        for k in ('SweepType', 'MPIType', 'maxCellsPerStep', 'intraAngleP', 'interAngleP'):
            d[k] = over[k]
        nr = min(rng.choice([1, 2, 3, 4, 5, 6]), len(m.cells))
        th = rng.choice([1, 2, 3, 4, 9])
        th = cases.tame(m, d, nr, th)
        pv = ml.random_partition(rng, m, nr)
        dv = cases.write_case(ck, '%d-%d' % (i, v), m, pv, nr, d, rng)
        text = cases.describe(m, mdesc, nr, th, d)
        r = cases.run_case(exe, dv, nr, th, timeout=90)
        if r.err:
            ck.violation(r.err, 'valid problem failed: %s\n%s' % (text, r.out[-1500:]), cases.replay_files(dv))
            continue
        if r.psi.shape != ref.psi.shape:
            ck.violation('shape', 'shape %s vs %s: %s' % (r.psi.shape, ref.psi.shape, text), cases.replay_files(dv))
            continue
        st = stats(r.out)
        same_it = knife or ([a for a, _ in st[0]] == [a for a, _ in st0[0]] and
                            all(close(x[1], y[1]) for x, y in zip(st[0], st0[0])))
        diff = np.abs(r.psi - ref.psi).max()
        ck.case((mdesc, len(m.cells), nr, th, sorted(d.items())), scale > 0 and (nr > 1 or th > 1 or d != base),
                {'base': text0, 'variant': text, 'max difference': float(diff)})
        ck.count('bitwise equal to the serial run', int((r.psi == ref.psi).all()))
        ck.count('%d ranks' % nr)
        ck.count('%d threads' % th)
        if not same_it:
            ck.violation('iterations', 'iterations differ from the serial run: %s vs %s\n%s' % (st[0], st0[0], text),
                         cases.replay_files(dv))
        elif not knife:
            if not (diff <= TOL * scale):
                w = np.unravel_index(np.argmax(np.abs(r.psi - ref.psi)), ref.psi.shape)
                ck.violation('result', 'psi differs from the serial run by %g of %g at (cell,angle,vertex,group) %s\n'
                             '%s\n%s' % (diff, scale, w, text0, text), cases.replay_files(dv))
            if scale > 0 and not (close(st[1], st0[1]) and close(st[2], st0[2])):
                ck.violation('report', 'reported L2 error/group difference %s vs serial %s\n%s' % (st[1:], st0[1:], text),
                             cases.replay_files(dv))
        if v < 2:
            r2 = cases.run_case(exe, dv, nr, th, timeout=90)
            if r2.err:
                ck.violation(r2.err, 'repeated run failed: %s\n%s' % (text, r2.out[-1500:]), cases.replay_files(dv))
            else:
                ck.count('repeated runs')
                if not knife and r2.psi.tobytes() != r.psi.tobytes():
                    ck.violation('determinism', 'two identical runs gave different psi (%g of %g): %s' % (
                        np.abs(r2.psi - r.psi).max(), scale, text), cases.replay_files(dv))


def main():
    ck = tl.Check('C03')
    ck.rule = ('a case is one pair (serial run, run with another partition / ranks / threads / sweep type / MPI type / '
               'cells per step / priorities); non-trivial if the flux is not zero and the configuration differs')
    ck.assumptions = ['meshes whose upwind relation is acyclic for every direction', 'same binary, same machine']
    exe = tl.build_sweep('plain')
    tl.pmap(lambda i: one(ck, exe, i), range(ck.n(36, 600)))
    return ck.finish()
