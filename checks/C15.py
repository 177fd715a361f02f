"""C15: quadrature sets are valid, symmetric and exact to their order.

Dumps what every getter of the real Quadrature returns on every rank, for every
order, and evaluates the integrals of all monomials."""
import random
import numpy as np
import cases
import meshlib as ml
import tycholib as tl


def gammas(n):
    """g[k] = Gamma(k/2)"""
    g = [0.0, np.sqrt(np.pi), 1.0]
    for k in range(3, n + 1):
        g.append((k / 2.0 - 1) * g[k - 2])
    return g


def judge(N, rows):
    """-> (violations, number of integrals)"""
    bad = []
    A = 2 * N * N
    if len(rows) != A:
        return [('count', 'order %d has %d directions instead of %d' % (N, len(rows), A))], 0
    o, w = rows[:, 1:4], rows[:, 4]
    if not np.isfinite(rows).all():
        return [('finite', 'order %d has values that are not finite' % N)], 0
    if (rows[:, 0] != 3).any() or not np.array_equal(o, rows[:, 5:8]):
        bad.append(('getters', 'order %d: getOmega differs from getXi, getEta, getMu' % N))
    if np.abs((o ** 2).sum(1) - 1).max() > 1e-14:
        bad.append(('unit', 'order %d: a direction has length 1%+.2e' % (N, np.abs((o ** 2).sum(1) - 1).max())))
    if not (w > 0).all():
        bad.append(('positive', 'order %d: weight %g' % (N, w.min())))
    if abs(w.sum() - 4 * np.pi) > 1e-13 * 4 * np.pi:
        bad.append(('sum', 'order %d: weights sum to 4 pi %+.2e' % (N, w.sum() - 4 * np.pi)))
    d2 = ((o[:, None, :] - o[None, :, :]) ** 2).sum(-1) + 10 * np.eye(A)
    if d2.min() < 1e-10:
        bad.append(('distinct', 'order %d: directions %s coincide' % (N, np.unravel_index(d2.argmin(), d2.shape))))
    for ax in range(3):
        r = o.copy()
        r[:, ax] *= -1
        dd = ((r[:, None, :] - o[None, :, :]) ** 2).sum(-1)
        j = dd.argmin(1)
        if np.sqrt(dd[np.arange(A), j].max()) > 1e-14 * 40 or np.abs(w[j] - w).max() > 1e-15 * 40:
            bad.append(('symmetry', 'order %d: not mapped onto itself by reflection of axis %d' % (N, ax)))
    g = gammas(2 * N + 4)
    X, Y, Z = [np.array([o[:, k] ** i for i in range(2 * N)]) for k in range(3)]
    n = 0
    worst = (0.0, None)
    for a in range(2 * N):
        for b in range(2 * N - a):
            m = 2 * N - a - b
            q = Z[:m] @ (w * X[a] * Y[b])
            if a % 2 or b % 2:
                ex = np.zeros(m)
            else:
                ex = np.array([0.0 if c % 2 else 2 * g[a + 1] * g[b + 1] * g[c + 1] / g[a + b + c + 3] for c in range(m)])
            e = np.abs(q - ex)
            n += m
            if e.max() > worst[0]:
                worst = (e.max(), (a, b, int(e.argmax())))
    # the tables carry 16 digits
    if worst[0] > 2e-14 * N + 2e-14:
        bad.append(('exactness', 'order %d: the integral of x^%d y^%d z^%d is off by %.3g' % ((N,) + worst[1] + (worst[0],))))
    return bad, n


def main():
    ck = tl.Check('C15')
    ck.rule = 'a case is one order on one number of ranks; non-trivial if the order is accepted'
    ck.assumptions = ['exact means to the 16 digits of the tables']
    exe = tl.build_sweep('plain', [tl.HARN + '/h_quad.cc'], 'h_quad', main=False)
    sweep = tl.build_sweep('plain')
    first = {}

    def one(j):
        i, (N, nr) = j
        dd = ck.sub(i)
        r = tl.run_mpi(exe, ['order=%d' % (N % 2 ** 64)], nr, 1, cwd=dd)
        good = N % 2 == 0 and 2 <= N <= 30
        ck.case('order %d ranks %s' % (N, nr), good, 'order %d ranks %s' % (N, nr))
        if not good:
            ck.count('orders that must be refused')
            if r.timeout or r.rc == 0 or 'ACCEPTED' in r.out:
                ck.violation('accepted', 'order %d is not refused (status %s)\n%s' % (N, r.rc, r.out[-500:]))
            return
        if r.timeout or r.rc != 0:
            ck.violation('refused', 'order %d is refused or fails\n%s' % (N, r.out[-800:]))
            return
        t = [open('%s/quad.%d' % (dd, q)).read() for q in range(nr)]
        for q in range(1, nr):
            if t[q] != t[0]:
                ck.violation('ranks', 'order %d: rank %d has other directions than rank 0' % (N, q), {'r0': t[0], 'r': t[q]})
        with ck.lock:
            if first.setdefault(N, t[0]) != t[0]:
                ck.viol.append(('runs', 'order %d: another run has other directions' % N, {}))
        rows = np.array([[float(l.split()[0])] + [float.fromhex(x) for x in l.split()[1:]] for l in t[0].splitlines()])
        bad, n = judge(N, rows)
        ck.count('integrals of monomials', n)
        ck.count('directions', len(rows))
        for k, x in bad:
            ck.violation(k, x, {'quad': t[0]})
    orders = [(N, 1) for N in range(2, 31, 2)] + [(N, 3) for N in (2, 4, 6, 8, 16, 30)]
    orders += [(N, 1) for N in [0, 1, 3, 5, 7, 9, 11, 13, 15, 17, 19, 21, 23, 25, 27, 29, 31, 32, 34, 36, 64, 100, -2, -1,
                                2 ** 32 + 2, 2 ** 63 + 4, 2 ** 33 + 30, 256 + 4]]
    tl.pmap(one, list(enumerate(orders)))

    # the program as a whole: refused on each rank, no flux file
    def whole(i):
        rng = random.Random('C15/w/%d/%d' % (ck.seed, i))
        N = rng.choice([0, 1, 3, 5, 31, 32, -2, 7, 9, 11, 1000])
        desc, m = cases.gen_mesh(rng, 'tiny')
        nr = min(rng.choice([1, 2, 3]), len(m.cells))
        dd = cases.write_case(ck, 'w%d' % i, m, ml.random_partition(rng, m, nr), nr, cases.gen_deck(rng, snOrder=N), rng)
        r = tl.run_mpi(sweep, ['m.pmesh', 'x.deck'], nr, 1, cwd=dd, timeout=30)
        ck.case('sweep snOrder %d ranks %d' % (N, nr), False)
        ck.count('decks with an unsupported order')
        if r.timeout or r.rc == 0 or tl.os.path.exists(dd + '/out.psi'):
            ck.violation('sweep-accepted', 'snOrder %d on %d ranks: status %s, timeout %s' % (N, nr, r.rc, r.timeout), cases.replay_files(dd))
    tl.pmap(whole, range(ck.n(16, 100)))
    return ck.finish()
