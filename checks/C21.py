"""C21: traversals and schedules honour the priorities and the work limit, and
the priorities are those of the chosen kind.

Online events of monitored traversals, the priorities computed for a mesh and
the order of precomputed schedules are replayed by an offline oracle."""
import random
import numpy as np
import cases
import meshlib as ml
import schedlog
import travlog as T
import tycholib as tl


def replay(topo, pv, r, ev, direction, comm, mx, prios, seed):
    """events of one rank -> violations"""
    bad = []
    geo = topo.geo
    A = len(topo.dirs)
    sgn = 1 if direction == 'F' else -1

    def err(key, *a):
        if len(bad) < 4:
            bad.append((key, ' '.join(str(x) for x in a)))
    tof = {}
    for e in ev:
        if e[1] == T.U:
            tof.setdefault(e[4], e[2])
    ready = {}
    need = {}
    pr = {}
    mine = [c for c in range(geo.C) if pv[c] == r]
    for c in mine:
        for a in range(A):
            n = sum(1 for k in range(4) if sgn * topo.sign[c, a, k] < 0 and geo.nb[c, k] >= 0 and
                    (comm or pv[geo.nb[c, k]] == r))
            need[(c, a)] = n
            pr[(c, a)] = T.prio(c, a, seed, prios)
            if n == 0:
                ready.setdefault(tof.get(a), set()).add((c, a))
    gf = {(int(topo.gface[c, k])): (c, k) for c in mine for k in range(4)
          if geo.nb[c, k] >= 0 and pv[geo.nb[c, k]] != r}
    since = {}
    choices = 0
    talks = bool(gf) and comm
    for e in ev:
        if e[1] == T.COMM:
            # (no communication is due any more once all neighbours are done:
            # the visits after the last one are not judged)
            for t, n in since.items():
                if talks and n > mx:
                    err('limit', 'rank', r, 'thread', t, 'visits', n, 'pairs between communications, limit', mx)
            since = {}
        elif e[1] == T.S:
            c, k = gf.get(e[3], (None, None))
            if c is None:
                return bad, choices
            need[(c, e[4])] -= 1
            if need[(c, e[4])] == 0:
                ready.setdefault(tof.get(e[4]), set()).add((c, e[4]))
        elif e[1] == T.U:
            c, a, t = e[3], e[4], e[2]
            s = ready.get(tof[a], set())
            if (c, a) not in s:
                err('not-ready', 'rank', r, 'visits cell', c, 'angle', a, 'which is not ready on its thread')
                return bad, choices
            best = max(pr[x] for x in s)
            if len(s) > 1:
                choices += 1
            if pr[(c, a)] < best:
                err('priority', 'rank', r, 'thread', t, 'visits cell', c, 'angle', a, 'of priority', pr[(c, a)],
                    'while one of', best, 'is ready')
            s.discard((c, a))
            since[t] = since.get(t, 0) + 1
            for k in range(4):
                nb = int(geo.nb[c, k])
                if sgn * topo.sign[c, a, k] > 0 and nb >= 0 and pv[nb] == r:
                    need[(nb, a)] -= 1
                    if need[(nb, a)] == 0:
                        s.add((nb, a))
    return bad, choices


def definition(topo, pv, intra, whole):
    """priorities within angles of kind 1..4 by definition, (C,A); whole: levels
    look through other partitions (the documented definition)"""
    geo = topo.geo
    C, A = geo.C, len(topo.dirs)
    down = {}
    order = []
    # topological order of the whole graph, downstream first
    nd = np.zeros((C, A), dtype=int)
    for c in range(C):
        for a in range(A):
            nd[c, a] = sum(1 for k in range(4) if topo.sign[c, a, k] > 0 and geo.nb[c, k] >= 0)
    st = [(c, a) for c in range(C) for a in range(A) if nd[c, a] == 0]
    while st:
        c, a = st.pop()
        order.append((c, a))
        for k in range(4):
            nb = int(geo.nb[c, k])
            if topo.sign[c, a, k] < 0 and nb >= 0:
                nd[nb, a] -= 1
                if nd[nb, a] == 0:
                    st.append((nb, a))
    b = np.zeros((C, A), dtype=object)
    for c, a in order:
        v = 0
        for k in range(4):
            nb = int(geo.nb[c, k])
            if topo.sign[c, a, k] > 0 and nb >= 0:
                v = max(v, 1 + (b[nb, a] if whole or pv[nb] == pv[c] else 0))
        b[c, a] = v
    K = int(b.max()) if C else 0
    if intra == 1:
        return b, K
    scale, shift, ps = {2: (1, 0, 0), 3: (1, K, -1), 4: (K, K, -1)}[intra]
    p = np.zeros((C, A), dtype=object)
    for c, a in order:
        v = 0
        for k in range(4):
            nb = int(geo.nb[c, k])
            if topo.sign[c, a, k] > 0 and nb >= 0:
                if pv[nb] == pv[c]:
                    if p[nb, a] > 0:
                        v = max(v, p[nb, a] + ps)
                else:
                    v = max(v, (b[nb, a] if whole else 0) * scale + shift)
        p[c, a] = v
    return p, K


def outranks(p, M, inter, x, y):
    """y certainly before x?  x, y = (cell, angle index); M = highest per angle"""
    if inter == 0:
        return p[y] > p[x]
    if x[1] == y[1]:
        return p[y] > p[x]
    if inter == 1:
        return y[1] > x[1]
    return M[y[1]] > M[x[1]]


def cmp_priorities(P, p, cells, A, inter, K):
    """computed priorities of one rank against the definition -> text or None"""
    if K == 0:
        return None
    M = [max(p[c, a] for c in cells) for a in range(A)]
    items = [(c, a) for c in cells for a in range(A)]
    items.sort(key=lambda x: P[x])
    # along increasing computed priority nothing may outrank a later one
    n = len(items)
    step = max(1, n * n // 40000)
    for i in range(n):
        for j in range(i + 1, n, step):
            x, y = items[i], items[j]
            if outranks(p, M, inter, y, x):
                return 'cell %d angle %d has priority %d, cell %d angle %d has %d, defined order is the other' % (
                    x + (P[x],) + y + (P[y],))
            if P[x] == P[y] and outranks(p, M, inter, x, y):
                return 'cell %d angle %d and cell %d angle %d both have priority %d, one outranks the other' % (
                    x + y + (P[x],))
    return None


def trav(ck, exe, i, rng):
    desc, m = cases.gen_mesh(rng, cases.sz(rng, i, ['tiny', 'small', 'small'], 41))
    N = 2
    nr = min(rng.choice([1, 2, 3, 4]), len(m.cells))
    th = rng.choice([1, 1, 2, 3])
    pv = ml.random_partition(rng, m, nr)
    plan = ''.join(rng.choice(['FC', 'FC', 'BC', 'FL', 'BL']) for _ in range(rng.randint(1, 3)))
    mx = rng.choice([1, 2, 5, 100000])
    seed = rng.randrange(1000)
    prios = rng.choice([3, 10, 1000, 10 ** 12])
    topo = T.Topo(m, N)
    intra, inter = rng.randrange(5), rng.randrange(3)
    dd = cases.write_case(ck, i, m, pv, nr, {}, rng)
    args = ['mesh=m.pmesh', 'sn=%d' % N, 'plan=' + plan, 'mpi=' + rng.choice(['TychoTwoSided', 'CapsaicinTwoSided']),
            'max=%d' % mx, 'delay=%d' % rng.choice([0, 5]), 'seed=%d' % seed, 'prios=%d' % prios, 'calc=1',
            'intra=%d' % intra, 'inter=%d' % inter]
    r = tl.run_mpi(exe, args, nr, th, cwd=dd, timeout=60)
    text = '%s %d cells %d ranks %d threads %s' % (desc, len(m.cells), nr, th, ' '.join(args))
    ck.case(text, True, text)
    if r.timeout or r.rc != 0:
        ck.violation('hang' if r.timeout else 'abort', 'traversal failed: %s\n%s' % (text, r.out[-1500:]), cases.replay_files(dd))
        return
    logs, pp = T.read_logs(dd, nr)
    for t in range(len(plan) // 2):
        for q in range(nr):
            bad, ch = replay(topo, pv, q, logs[q][t], plan[2 * t], plan[2 * t + 1] == 'C', mx, prios, seed)
            ck.count('choices between ready pairs', ch)
            for key, x in bad:
                ck.violation(key, 'traversal %d: %s\n%s' % (t, x, text), cases.replay_files(dd))
    if intra > 0:
        full, K = definition(topo, pv, intra, True)
        loc, KL = definition(topo, pv, intra, False)
        for q in range(nr):
            cells = [c for c in range(len(m.cells)) if pv[c] == q]
            A = len(topo.dirs)
            e = cmp_priorities(pp[q], full, cells, A, inter, K)
            ck.count('priority tables compared')
            if e is None:
                continue
            l = cmp_priorities(pp[q], loc, cells, A, inter, KL) if nr > 1 else e
            if l is None:
                ck.violation('offrank-levels', 'intraAngleP %d: %s\n%s' % (intra, e, text), cases.replay_files(dd))
            else:
                ck.violation('priorities', 'intraAngleP %d interAngleP %d rank %d: %s\n%s' % (intra, inter, q, l, text),
                             cases.replay_files(dd))
    tl.shutil.rmtree(dd)


def sched(ck, exe, i, rng):
    desc, m = cases.gen_mesh(rng, cases.sz(rng, i, ['tiny', 'small', 'small'], 41))
    N = 2
    nr = min(rng.choice([1, 2, 3, 4]), len(m.cells))
    pv = ml.random_partition(rng, m, nr)
    topo = T.Topo(m, N)
    geo = topo.geo
    A = len(topo.dirs)
    intra, inter = rng.choice([1, 2, 3, 4]), rng.randrange(3)
    mx = rng.choice([1, 2, 5, 100000])
    dd = cases.write_case(ck, i, m, pv, nr, {}, rng)
    args = ['mesh=m.pmesh', 'sn=%d' % N, 'max=%d' % mx, 'intra=%d' % intra, 'inter=%d' % inter,
            'angles=' + schedlog.spec([list(range(A))])]
    r = tl.run_mpi(exe, args, nr, 1, cwd=dd, timeout=60)
    text = 'schedule: %s %d cells %d ranks %s' % (desc, len(m.cells), nr, ' '.join(args))
    ck.case(text, True, text)
    if r.timeout or r.rc != 0:
        ck.violation('hang' if r.timeout else 'abort', 'schedule failed: %s\n%s' % (text, r.out[-1500:]), cases.replay_files(dd))
        return
    D = schedlog.read(dd, nr)
    p, K = definition(topo, pv, intra, True)
    if K == 0:
        return
    ns = D[0]['steps'].get(0, 0)
    need, ready = {}, [set() for _ in range(nr)]
    for c in range(geo.C):
        for a in range(A):
            n = sum(1 for k in range(4) if topo.sign[c, a, k] < 0 and geo.nb[c, k] >= 0)
            need[(c, a)] = n
            if n == 0:
                ready[pv[c]].add((c, a))
    M = [[max(p[c, a] for c in range(geo.C) if pv[c] == q) for a in range(A)] for q in range(nr)]
    for t in range(ns):
        late = []
        for q in range(nr):
            w = D[q]['work'].get((0, t), [])
            if len(w) > mx:
                ck.violation('limit', 'rank %d step %d: %d pairs\n%s' % (q, t, len(w), text), cases.replay_files(dd))
            for x in w:
                if x not in ready[q]:
                    ck.violation('not-ready', 'rank %d step %d schedules %s which is not ready\n%s' % (q, t, x, text),
                                 cases.replay_files(dd))
                    return
                for y in ready[q]:
                    if outranks(p, M[q], inter, x, y):
                        ck.violation('schedule-priority', 'rank %d step %d schedules cell,angle %s (%d) before %s (%d)\n%s' % (
                            q, t, x, p[x], y, p[y], text), cases.replay_files(dd))
                        return
                if len(ready[q]) > 1:
                    ck.count('schedule choices')
                ready[q].discard(x)
                c, a = x
                for k in range(4):
                    nb = int(geo.nb[c, k])
                    if topo.sign[c, a, k] > 0 and nb >= 0:
                        if pv[nb] == q:
                            need[(nb, a)] -= 1
                            if need[(nb, a)] == 0:
                                ready[q].add((nb, a))
                        else:
                            late.append((nb, a))
        for x in late:
            need[x] -= 1
            if need[x] == 0:
                ready[pv[x[0]]].add(x)
    tl.shutil.rmtree(dd)


def main():
    ck = tl.Check('C21')
    ck.rule = ('a case is one monitored run of traversals and priority calculation, or one schedule, on one (mesh, '
               'partition, threads, limit, priority kinds); distinct by all of these')
    ck.assumptions = ['each thread owns whole angles', 'random priorities are not compared with a definition']
    exe = tl.build_sweep('debug', [tl.HARN + '/h_trav.cc'], 'h_trav', main=False)
    exs = tl.build_sweep('debug', [tl.HARN + '/h_sched.cc'], 'h_sched', main=False)

    def one(i):
        rng = random.Random('C21/%d/%d' % (ck.seed, i))
        (sched if i % 3 == 2 else trav)(ck, exs if i % 3 == 2 else exe, i, rng)
    tl.pmap(one, range(ck.n(450, 6000)))
    return ck.finish()
