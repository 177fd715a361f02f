"""C20: iterations stop when they should and report the truth.

Every solution method is simulated with the reference discretisation (dense
matrices for the Krylov parts), iteration by iteration.  What the real sweep.x
prints about each iteration, where it stops and the flux it leaves are then
compared.  What needs no model (numbering, limits, tolerances, counts that are
printed twice, the final norms) is checked on the log of every run."""
import random
import re
import numpy as np
import cases
import meshlib as ml
import refsn
import tycholib as tl

DIRECT = ['TraverseGraph', 'OriginalTycho1', 'OriginalTycho2']
TYPES = DIRECT + ['PBJ', 'PBJOuter', 'PBJSI', 'Schur', 'SchurOuter', 'SchurKrylov']
F = r'(\S+)'


class Tie(Exception):
    """the decision to stop is within rounding"""


def stops(err, tol):
    if abs(err - tol) <= 1e-6 * tol + 1e-15:
        raise Tie()
    return err <= tol


def rel(new, old):
    s = np.abs(new).sum()
    if s == 0:
        raise Tie()
    return np.abs(new - old).sum() / s


class Sim:
    """the methods, by the reference; one group (all are equal)"""

    def __init__(self, pr, pv, d):
        self.pr = pr.columns(1)
        self.d = d
        self.C = pr.geo.C
        self.cut = refsn.Cut(pr, pv)
        self.zx = np.zeros((self.cut.n, 1))
        self.zphi = np.zeros((self.C, 4, 1))
        self.zq = np.zeros_like(pr.q)
        self.log = {}

    def note(self, k, v):
        self.log.setdefault(k, []).append(v)

    def fixed(self, sweep, psi):
        """source iteration"""
        phi = self.pr.phi(psi)
        errs = []
        while len(errs) < self.d['iterMax'] and not (errs and stops(errs[-1], self.d['errMax'])):
            psi = sweep(phi, psi)
            new = self.pr.phi(psi)
            errs.append(rel(new, phi))
            phi = new
        self.note('si', errs)
        return psi

    def gmres(self, kind, A, b, x0, rtol, maxit):
        x, h = refsn.gmres(A, b, x0, rtol, maxit)
        t = rtol * np.linalg.norm(b)
        if b.size and t == 0:
            raise Tie()
        if any(abs(r - t) <= 1e-3 * t for r in h) or len(h) > 31:
            raise Tie()
        self.note(kind, (len(h) - 1, h[-1], np.linalg.norm(b)))
        return x

    def krylov(self, T, q_sweep):
        """T: scattering sweep as a matrix, q_sweep(phi): sweep with the source"""
        b = self.pr.phi(q_sweep(self.zphi)).ravel()
        x = self.gmres('krylov', np.eye(len(b)) - T, b, np.zeros(len(b)), self.d['errMax'], self.d['iterMax'])
        return q_sweep(x.reshape(self.C, 4, 1))

    def eye_phi(self):
        n = 4 * self.C
        return np.eye(n).reshape(self.C, 4, n)

    def T_full(self):
        n = 4 * self.C
        return self.pr.phi(self.pr.columns(n).sweep(self.eye_phi(), self.zq)).reshape(n, n)

    def T_local(self):
        n = 4 * self.C
        return self.pr.phi(self.cut.sweep(self.eye_phi(), np.zeros((self.cut.n, n)), self.zq)).reshape(n, n)

    def W_local(self):
        """inflow -> (inflow, phi) of a local sweep without source"""
        n = self.cut.n
        psi = self.cut.sweep(np.zeros((self.C, 4, n)), np.eye(n), self.zq)
        return self.cut.extract(psi), self.pr.phi(psi).reshape(4 * self.C, n)

    # ---
    def direct(self):
        sweep = lambda phi, psi=None: self.pr.sweep(phi)
        if self.d['SourceIteration'] == 'true':
            return self.fixed(sweep, np.zeros(self.pr.q.shape + (1,)))
        return self.krylov(self.T_full(), sweep)

    def pbj(self):
        st = {'x': self.zx}

        def sweep(phi, psi):
            n, old = 0, psi
            while n < self.d['DD_IterMax']:
                n += 1
                psi = self.cut.sweep(phi, st['x'])
                e = rel(psi, old)
                old = psi
                if stops(e, self.d['DD_ErrMax']):
                    break
                st['x'] = self.cut.extract(psi)
            self.note('pbj', n)
            return psi
        if self.d['SourceIteration'] == 'true':
            return self.fixed(sweep, np.zeros(self.pr.q.shape + (1,)))
        # with tight inner tolerances this is the full sweep
        return self.krylov(self.T_full(), lambda phi: self.pr.sweep(phi))

    def pbjouter(self):
        x, psi = self.zx, np.zeros(self.pr.q.shape + (1,))
        old, n = psi, 0
        T = None if self.d['SourceIteration'] == 'true' else self.T_local()
        while n < self.d['DD_IterMax']:
            n += 1
            if T is None:
                psi = self.fixed(lambda phi, p: self.cut.sweep(phi, x), psi)
            else:
                psi = self.krylov(T, lambda phi: self.cut.sweep(phi, x))
            e = rel(psi, old)
            self.note('rel', e)
            old = psi
            if stops(e, self.d['DD_ErrMax']):
                break
            x = self.cut.extract(psi)
        self.note('iters', n)
        return psi

    def pbjsi(self):
        x, phi, n = self.zx, self.zphi, 0
        psi = np.zeros(self.pr.q.shape + (1,))
        while n < self.d['DD_IterMax']:
            n += 1
            psi = self.cut.sweep(phi, x)
            new = self.pr.phi(psi)
            x = self.cut.extract(psi)
            e = rel(new, phi)
            self.note('rel', e)
            phi = new
            if stops(e, self.d['DD_ErrMax']):
                break
        self.note('iters', n)
        return psi

    def schur(self):
        n = self.cut.n
        if self.d['SourceIteration'] != 'true':
            return self.krylov(self.T_full(), lambda phi: self.pr.sweep(phi))
        A = np.eye(n) - self.W_local()[0]
        st = {'x': np.zeros(n)}

        def sweep(phi, psi):
            b = self.cut.extract(self.cut.sweep(phi, self.zx))[:, 0]
            st['x'] = self.gmres('schur', A, b, st['x'], self.d['DD_ErrMax'], self.d['DD_IterMax'])
            return self.cut.sweep(phi, st['x'][:, None])
        return self.fixed(sweep, np.zeros(self.pr.q.shape + (1,)))

    def schurouter(self):
        # with tight inner tolerances the local solves are exact
        n = self.cut.n
        K = np.linalg.inv(np.eye(4 * self.C) - self.T_local())

        def solve(x, source):
            p = self.pr.phi(self.cut.sweep(np.zeros((self.C, 4, x.shape[1])), x, source)).reshape(4 * self.C, -1)
            return self.cut.sweep((K @ p).reshape(self.C, 4, -1), x, source)
        A = np.eye(n) - self.cut.extract(solve(np.eye(n), self.zq)).reshape(n, n)
        b = self.cut.extract(solve(self.zx, None))[:, 0]
        x = self.gmres('schurouter', A, b, np.zeros(n), self.d['DD_ErrMax'], self.d['DD_IterMax'])
        return solve(x[:, None], None)

    def schurkrylov(self):
        n, N = self.cut.n, 4 * self.C
        WB, WP = self.W_local()
        psi = self.cut.sweep(self.eye_phi(), np.zeros((n, N)), self.zq)
        PB, PP = self.cut.extract(psi).reshape(n, N), self.pr.phi(psi).reshape(N, N)
        A = np.eye(n + N) - np.block([[WB, PB], [WP, PP]])
        psi = self.cut.sweep(self.zphi, self.zx)
        b = np.concatenate([self.cut.extract(psi)[:, 0], self.pr.phi(psi).ravel()])
        x = self.gmres('schurkrylov', A, b, np.zeros(n + N), self.d['DD_ErrMax'], self.d['DD_IterMax'])
        return self.cut.sweep(x[n:].reshape(self.C, 4, 1), x[:n, None])

    def run(self, st):
        return self.direct() if st in DIRECT else getattr(self, st.lower())()


def parse(out):
    """the log of a run -> what it says"""
    p = {'si': [], 'rel': [], 'pbj': [], 'krylov': [], 'schur': [], 'schurouter': [], 'schurkrylov': []}
    pend = {}
    for l in out.split('\n'):
        m = re.match(r' *iteration: (\d+) +error: (\S+)', l)
        if m:
            if int(m.group(1)) == 0:
                p['si'].append([])
            if not p['si'] or len(p['si'][-1]) != int(m.group(1)):
                p['numbering'] = l
                p['si'] or p['si'].append([])
            p['si'][-1].append(float(m.group(2)))
        m = re.match(r'Relative error: (\S+)', l)
        if m:
            p['rel'].append(float(m.group(1)))
        m = re.match(r'( *)PBJ Iters: (\d+)', l)
        if m:
            if m.group(1):
                p['pbj'].append(int(m.group(2)))
            else:
                p['iters'] = int(m.group(2))
        m = re.match(r'Krylov iterations: (\d+) with Rnorm: (\S+)', l)
        if m:
            p['krylov'].append((int(m.group(1)), float(m.group(2))))
        for k, pat in (('schur', r' *Schur: '), ('schurouter', 'SchurOuter: '), ('schurkrylov', 'SchurKrylov: ')):
            m = re.match(pat + r'Krylov iterations: (\d+)', l)
            if m:
                pend[k] = int(m.group(1))
            m = re.match(pat + r'Residual [Nn]orm: (\S+)', l)
            if m:
                p[k].append((pend.get(k), float(m.group(1))))
        for k, pat in (('num', 'Num source iterations:'), ('numQ', 'SchurOuter: Num sweeps Q:'), ('numK', 'SchurOuter: Num sweeps KSP:'),
                       ('numE', 'SchurOuter: Num sweeps END:'), ('total', 'Num source iters:')):
            if l.startswith(pat):
                p[k] = [int(x) for x in l[len(pat):].split()]
        m = re.match('L2 Relative Error: (.*)', l)
        if m:
            p['l2'] = float(m.group(1))
        m = re.match('Diff between groups: (.*)', l)
        if m:
            p['diff'] = float(m.group(1))
    return p


def l2(m, psi):
    """relative L2 distance of the cell averages to the hat"""
    c = np.linalg.norm(m.nodes[m.cells].mean(axis=1) - 50.0, axis=-1)
    hat = np.where(c <= 30.0, 1 - c / 30.0, 0.0)
    avg = psi.mean(axis=2)
    n = (avg ** 2).sum()
    return np.sqrt(((avg - hat[:, None, None]) ** 2).sum() / n) if n > 0 else None, np.abs(c - 30.0).min()


def close(a, b, rt=3e-6, at=1e-12):
    return abs(a - b) <= rt * abs(b) + at


def settings(rng, st, si):
    tol = lambda lo, hi: 10.0 ** -rng.uniform(lo, hi)
    its = lambda: rng.choice([0, 1, 2, 3, 4, 6, 9, 15, 29, 200, 200, 200, 200])
    d = dict(errMax=rng.choice([tol(0.05, 1), tol(1, 4), tol(4, 9)]), iterMax=its(),
             DD_ErrMax=rng.choice([tol(0.05, 1), tol(1, 4), tol(4, 9)]), DD_IterMax=its())
    model = True
    if si == 'true' and rng.random() < 0.2:
        # errors that equal the tolerance: the first is 1 by definition, that of
        # a pure absorber 0 as soon as the sweeps have converged
        d['errMax'] = rng.choice([0.0, 1.0])
        d['iterMax'] = rng.choice([3, 7, 25])
        if d['errMax'] == 0:
            d['absorber'] = True
    if (st in ('PBJ', 'Schur') and si == 'false'):
        # the model takes the inner solver for exact
        d.update(DD_ErrMax=1e-14, DD_IterMax=3000, errMax=tol(0.5, 6))
        if rng.random() < 0.4:
            d.update(DD_ErrMax=tol(1, 6), DD_IterMax=its())
            model = False
    if st == 'SchurOuter':
        d.update(errMax=1e-14, iterMax=1000, DD_ErrMax=tol(0.5, 6))
        if rng.random() < 0.4:
            d.update(errMax=tol(1, 6), iterMax=rng.choice([2, 5, 200]))
            model = False
    return d, model


def rules(p, d, st, si):
    """what must hold in any log; yields (key, text)"""
    if 'numbering' in p:
        yield 'numbering', 'source iterations are not numbered from 0 on: ' + p['numbering']
    if 'l2' not in p or 'diff' not in p:
        yield 'final', 'final norms are not printed'
    for b in p['si']:
        if len(b) > d['iterMax']:
            yield 'si-limit', '%d source iterations, the limit is %d' % (len(b), d['iterMax'])
        # a zero flux has no relative change
        if any(np.isfinite(e) and e <= d['errMax'] * (1 - 1e-6) for e in b[:-1]):
            yield 'si-late', 'goes on after the tolerance %g was met: %s' % (d['errMax'], b)
        if d['errMax'] == 1.0 and b is p['si'][0] and b[0] == 1.0 and len(b) > 1:
            yield 'si-late', 'the first error is 1, so is the tolerance, but it goes on: %s' % b
        if len(b) < d['iterMax'] and b[-1] > d['errMax'] * (1 + 1e-6):
            yield 'si-early', 'stops before tolerance %g or limit %d are met: %s' % (d['errMax'], d['iterMax'], b)
    if si == 'false' and p['si']:
        yield 'si-used', 'source iterations although the deck asks for Krylov'
    if si == 'true' and p['krylov']:
        yield 'krylov-used', 'Krylov solves although the deck asks for source iteration'
    for k, lim in (('krylov', 'iterMax'), ('schur', 'DD_IterMax'), ('schurouter', 'DD_IterMax'), ('schurkrylov', 'DD_IterMax')):
        for n, r in p[k]:
            if n is None or n > d[lim]:
                yield k + '-limit', '%s iterations, the limit is %d' % (n, d[lim])
    for n in p['pbj']:
        if n > d['DD_IterMax']:
            yield 'pbj-limit', '%d block Jacobi iterations, the limit is %d' % (n, d['DD_IterMax'])
    if st in ('PBJOuter', 'PBJSI'):
        b = p['rel']
        if p.get('iters') != len(b):
            yield 'pbj-count', 'says %s iterations, reported %d' % (p.get('iters'), len(b))
        if len(b) > d['DD_IterMax']:
            yield 'pbj-limit', '%d block Jacobi iterations, the limit is %d' % (len(b), d['DD_IterMax'])
        if any(e < d['DD_ErrMax'] * (1 - 1e-6) for e in b[:-1]):
            yield 'pbj-late', 'goes on after tolerance %g was met: %s' % (d['DD_ErrMax'], b)
        if len(b) < d['DD_IterMax'] and not (b and b[-1] < d['DD_ErrMax'] * (1 + 1e-6)):
            yield 'pbj-early', 'stops before tolerance %g or limit %d are met: %s' % (d['DD_ErrMax'], d['DD_IterMax'], b)
    inner = [len(b) for b in p['si']] if si == 'true' else [n for n, r in p['krylov']]
    if st == 'PBJOuter' and d['iterMax'] > 0 and p.get('num') != inner:
        yield 'counts', 'says %s source iterations, the log has %s' % (p.get('num'), inner)
    if st == 'SchurOuter' and d['iterMax'] > 0:
        says = p.get('numQ', []) + p.get('numK', []) + p.get('numE', [])
        if says != inner:
            yield 'counts', 'says %s source iterations, the log has %s' % (says, inner)
    if st == 'PBJ' and p.get('total') != [sum(p['pbj'])]:
        yield 'counts', 'says %s sweeps in total, the log has %s' % (p.get('total'), p['pbj'])


def compare(p, log, d, st, nG):
    """the log against the model; yields (key, text)"""
    if 'si' in log:
        want, got = [b for b in log['si'] if b], p['si']
        if [len(b) for b in want] != [len(b) for b in got]:
            yield 'si-count', 'numbers of source iterations are %s, by the model %s; reported %s, model %s' % (
                [len(b) for b in got], [len(b) for b in want], got, want)
        else:
            for i, (a, b) in enumerate(zip(got, want)):
                for j, (x, y) in enumerate(zip(a, b)):
                    if not close(x, y, 1e-5):
                        yield 'si-error', 'solve %d iteration %d reports error %g, by the model it is %g' % (i, j, x, y)
                        return
    if 'rel' in log:
        if len(log['rel']) != len(p['rel']):
            yield 'rel-count', '%d outer iterations, by the model %d; reported %s, model %s' % (len(p['rel']), len(log['rel']), p['rel'], log['rel'])
        for i, (x, y) in enumerate(zip(p['rel'], log['rel'])):
            if not close(x, y, 1e-5):
                yield 'rel-error', 'outer iteration %d reports error %g, by the model it is %g' % (i, x, y)
                return
    if 'pbj' in log and log['pbj'] != p['pbj']:
        yield 'pbj-count', 'block Jacobi iterations %s, by the model %s' % (p['pbj'], log['pbj'])
    for k in ('krylov', 'schur', 'schurouter', 'schurkrylov'):
        if k not in log:
            continue
        want, got = log[k], p[k]
        if len(want) != len(got):
            if k == 'krylov' and len(got) > len(want):
                continue
            yield k + '-count', '%d Krylov solves, by the model %d' % (len(got), len(want))
            return
        for i, ((n, r), (N, R, B)) in enumerate(zip(got, want)):
            if n != N:
                yield k + '-count', 'Krylov solve %d takes %d iterations, by the model %d; norm %g, by the model %g, of %g' % (
                    i, n, N, r, R * np.sqrt(nG), B * np.sqrt(nG))
                return
            if not abs(r - R * np.sqrt(nG)) <= 1e-4 * r + 1e-10 * B:
                yield k + '-norm', 'Krylov solve %d reports residual norm %g, by the model it is %g' % (i, r, R * np.sqrt(nG))
                return


def one(ck, exe, i):
    rng = random.Random('C20/%d/%d' % (ck.seed, i))
    st = TYPES[i % len(TYPES)]
    si = ['true', 'false'][(i // len(TYPES)) % 2]
    if st in ('PBJSI', 'SchurKrylov'):
        si = rng.choice(['true', 'false'])
    s, model = settings(rng, st, si)
    for _ in range(50):
        mdesc, m = cases.gen_mesh(rng, rng.choice(['tiny', 'small', 'small']))
        if len(m.cells) <= 60 and np.abs(cases.problem(m, dict(snOrder=2, nGroups=1, sigmaT1=1, sigmaT2=1, sigmaS1=0, sigmaS2=0)).q).max() > 0:
            break
    absorber = s.pop('absorber', False)
    d = cases.gen_deck(rng, SweepType=st, SourceIteration=si, snOrder=rng.choice([2, 2, 2, 4]), **s)
    for k in '12':
        d['sigmaS' + k] = 0.0 if absorber else d['sigmaT' + k] * rng.choice([0.0, 0.3, 0.6, 0.9])
    nr = cases.gen_ranks(rng, m)
    th = cases.gen_threads(rng, m, d, nr)
    pv = ml.random_partition(rng, m, nr)
    pr = cases.problem(m, d)
    text = cases.describe(m, mdesc, nr, th, d)
    if np.abs(pr.q).max() == 0:
        ck.count('skipped: no source')
        return
    dd = cases.write_case(ck, i, m, pv, nr, d, rng)
    r = cases.run_case(exe, dd, nr, th, timeout=90)
    if r.err:
        ck.violation('%s/%s' % (r.err, st), 'valid problem failed: %s\n%s' % (text, r.out[-1500:]), cases.replay_files(dd))
        return
    psi = r.psi
    if psi.shape != (len(m.cells), len(pr.dirs), 4, d['nGroups']):
        ck.violation('shape', 'psi has shape %s: %s' % (psi.shape, text), cases.replay_files(dd))
        return
    p = parse(r.out)
    log, bad = {}, list(rules(p, d, st, si))
    if d['iterMax'] == 0 and d['SourceIteration'] == 'true' or np.abs(psi).max() == 0:
        ck.count('runs without iterations')
        if np.abs(psi).max() > 0 and st in DIRECT:
            bad.append(('limit', 'no iterations allowed, but there is a flux'))
    elif model:
        sim = Sim(pr, pv, d)
        try:
            want = sim.run(st)
            log = sim.log
        except Tie:
            ck.count('within rounding of a decision, only the rules apply')
        else:
            bad += compare(p, log, d, st, d['nGroups'])
            dev = np.abs(psi - want).max() / np.abs(want).max()
            if not dev <= 1e-6 and not bad:
                bad.append(('state', 'the flux left is not that of the last iterate of the model: relative difference %g' % dev))
            ck.count('modelled %s %s' % (st, '' if st in ('PBJSI', 'SchurKrylov') else 'SI' if si == 'true' else 'Krylov'))
            for k, v in log.items():
                ck.count('modelled events: ' + k, sum(len(x) if isinstance(x, list) else 1 for x in v))
    else:
        ck.count('rules only ' + st)
    ref, edge = l2(m, psi)
    if ref is not None and edge > 1e-9 and 'l2' in p:
        ck.count('final error norms')
        if not close(p['l2'], ref):
            bad.append(('l2', 'reports L2 error %g, of the flux file it is %g' % (p['l2'], ref)))
        g = np.abs(psi - psi[..., :1]).max() / np.abs(psi[..., 0]).max()
        if 'diff' in p and not close(p['diff'], g):
            bad.append(('diff', 'reports group difference %g, of the flux file it is %g' % (p['diff'], g)))
    ck.count('source iterations seen', sum(len(b) for b in p['si']))
    ck.count('Krylov solves seen', sum(len(p[k]) for k in ('krylov', 'schur', 'schurouter', 'schurkrylov')))
    ck.case((mdesc, len(m.cells), nr, th, sorted(d.items())), np.abs(psi).max() > 0,
            {'case': text, 'stops': {k: v for k, v in p.items() if v}} if i < 3 else None)
    for k, t in bad[:2]:
        ck.violation('%s/%s' % (k, st), '%s\n%s' % (t, text), dict(cases.replay_files(dd), log=r.out.encode()))
    tl.shutil.rmtree(dd)


def main():
    ck = tl.Check('C20')
    ck.rule = ('a case is one random (mesh, partition, ranks, threads, deck with random tolerances and limits) per method and outer iteration; '
               'non-trivial if the flux is not zero')
    ck.assumptions = ['tolerances between 1e-9 and 0.9', 'at most 30 Krylov iterations per solve are modelled (no restart)',
                      'scattering ratio at most 0.9, acyclic upwind relation']
    exe = tl.build_sweep('plain')
    tl.pmap(lambda i: one(ck, exe, i), range(ck.n(180, 2500)))
    return ck.finish()
