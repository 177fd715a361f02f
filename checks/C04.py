"""C04: a traversal visits everything exactly once, in dependency order, with
the right arguments and delivered data, and ends.

The real traverser drives a monitor that logs every callback; traversals are
disturbed by random delays of callbacks, of MPI calls and of probes."""
import random
import cases
import meshlib as ml
import travlog as T
import tycholib as tl


def check_traversal(topo, pv, logs, direction, comm, rnd, payload):
    """logs: per rank events of one traversal -> [(key, text)], stats"""
    bad = []
    geo = topo.geo
    A = len(topo.dirs)
    sgn = 1 if direction == 'F' else -1
    ups = dwn = 0

    def err(key, *a):
        if len(bad) < 6:
            bad.append((key, ' '.join(str(x) for x in a)))
    gs2f = {}
    for c in range(geo.C):
        for k in range(4):
            gs2f.setdefault(int(topo.gface[c, k]), []).append((c, k))
    for r, ev in enumerate(logs):
        done = {}
        side = {}
        for i, e in enumerate(ev):
            if e[1] == T.S:
                gs, a = e[3], e[4]
                if not comm:
                    err('side-data', 'rank', r, 'side data delivered in a traversal without communication')
                    continue
                mine = [x for x in gs2f.get(gs, []) if pv[x[0]] == r]
                if gs < 0 or not 0 <= a < A or len(mine) != 1 or len(gs2f[gs]) != 2:
                    err('side-data', 'rank', r, 'data for side', gs, 'angle', a, 'which is not a shared side of it')
                    continue
                c, k = mine[0]
                nb = int(geo.nb[c, k])
                if sgn * topo.sign[c, a, k] > 0:
                    err('side-data', 'rank', r, 'data for an outgoing side', gs, 'angle', a)
                if (gs, a) in side:
                    err('twice', 'rank', r, 'side', gs, 'angle', a, 'delivered twice')
                if (c, a) in done:
                    err('late', 'rank', r, 'side', gs, 'angle', a, 'delivered after cell', c, 'was visited')
                side[(gs, a)] = i
                want = (nb, gs, a * 1000 + rnd)[:payload // 8]
                if tuple(e[5][:len(want)]) != want or (payload > 24 and not e[5][3]):
                    err('payload', 'rank', r, 'side', gs, 'angle', a, 'data', e[5], 'expected', want)
            elif e[1] == T.U:
                c, a = e[3], e[4]
                if not (0 <= c < geo.C and 0 <= a < A and pv[c] == r):
                    err('cell', 'rank', r, 'visits cell', c, 'angle', a)
                    continue
                if (c, a) in done:
                    err('visited-twice', 'rank', r, 'cell', c, 'angle', a, 'visited again')
                for k in range(4):
                    s = topo.sign[c, a, k]
                    nb = int(geo.nb[c, k])
                    loc = nb >= 0 and pv[nb] == r
                    kind = 2 if loc else 0 if nb >= 0 else 1
                    b = e[6][k]
                    okk = {kind, kind + 3} if s == 0 else {kind} if s > 0 else {kind + 3}
                    if b not in okk:
                        err('boundary-kind', 'rank', r, 'cell', c, 'angle', a, 'face', k, T.NAMES[b] if 0 <= b < 6 else b,
                            'expected', [T.NAMES[x] for x in okk])
                    else:
                        want = nb if loc else int(topo.gface[c, k]) if nb >= 0 else -1
                        if e[5][k] != want:
                            err('adjacent', 'rank', r, 'cell', c, 'angle', a, 'face', k, 'got', e[5][k], 'expected', want)
                    if sgn * s < 0 and nb >= 0:
                        if loc:
                            ups += 1
                            if (nb, a) not in done:
                                err('order', 'rank', r, 'cell', c, 'angle', a, 'visited before upstream cell', nb)
                        elif comm:
                            dwn += 1
                            if (int(topo.gface[c, k]), a) not in side:
                                err('order', 'rank', r, 'cell', c, 'angle', a, 'visited before the data of cell', nb,
                                    'on rank', pv[nb], 'arrived')
                done[(c, a)] = i
        n = int((pv == r).sum()) * A
        if len(done) != n:
            err('missing', 'rank', r, 'visited', len(done), 'of', n, 'pairs')
        if comm:
            need = sum(1 for c in range(geo.C) if pv[c] == r for k in range(4)
                       if geo.nb[c, k] >= 0 and pv[geo.nb[c, k]] != r for a in range(A) if sgn * topo.sign[c, a, k] < 0)
            got = sum(1 for (gs, a) in side for (c, k) in gs2f[gs] if pv[c] == r and topo.sign[c, a, k] != 0)
            if need != got:
                err('side-data', 'rank', r, 'received', got, 'side data of', need)
    return bad, ups, dwn


def one(ck, exe, i):
    rng = random.Random('C04/%d/%d' % (ck.seed, i))
    desc, m = cases.gen_mesh(rng, cases.sz(rng, i, ['tiny', 'small', 'small', 'mid'], 23))
    N = rng.choice([2, 2, 4])
    w = cases.wide(rng, i, 25)
    if w:
        desc, m, N, _ = w
    nr = min(rng.choice([1, 2, 3, 4, 5]), len(m.cells))
    th = rng.choice([1, 1, 2, 3, 9])
    pv = ml.random_partition(rng, m, nr)
    plan = ''.join(rng.choice(['FC', 'FC', 'BC', 'FL', 'BL']) for _ in range(rng.randint(1, 4)))
    if i < 8:
        plan = ['FC', 'BC', 'FL', 'BL', 'FCBC', 'BCFC', 'BLFC', 'FCFC'][i]
    size = rng.choice([8, 16, 24, 25, 32, 100, 1000])
    mpi = rng.choice(['TychoTwoSided', 'CapsaicinTwoSided'])
    mx = rng.choice([1, 1, 2, 5, 30, 100000])
    delay = rng.choice([0, 3, 10, 30]) if len(m.cells) < 60 else rng.choice([0, 2])
    topo = T.Topo(m, N)
    dd = cases.write_case(ck, i, m, pv, nr, {}, rng)
    args = ['mesh=m.pmesh', 'sn=%d' % N, 'plan=' + plan, 'size=%d' % size, 'mpi=' + mpi, 'max=%d' % mx,
            'delay=%d' % delay, 'seed=%d' % rng.randrange(1000)]
    r = tl.run_mpi(exe, args, nr, th, cwd=dd, timeout=60)
    text = '%s %d cells %d ranks %d threads %s' % (desc, len(m.cells), nr, th, ' '.join(args))
    if r.timeout or r.rc != 0:
        ck.case(text, True, text)
        ck.violation('hang' if r.timeout else 'abort', 'traversal failed: %s\n%s' % (text, r.out[-1500:]), cases.replay_files(dd))
        return
    logs, _ = T.read_logs(dd, nr)
    ck.case(text, True, text)
    inter = set()
    for t in range(len(plan) // 2):
        if any(len(l) <= t for l in logs):
            ck.violation('missing', 'a rank returned from fewer traversals: %s' % text, cases.replay_files(dd))
            return
        ev = [l[t] for l in logs]
        bad, ups, dwn = check_traversal(topo, pv, ev, plan[2 * t], plan[2 * t + 1] == 'C', t, size)
        ck.count('traversals %s' % plan[2 * t:2 * t + 2])
        ck.count('visits', sum(1 for l in ev for e in l if e[1] == T.U))
        ck.count('local dependencies checked', ups)
        ck.count('remote dependencies checked', dwn)
        with ck.lock:
            ck.extra.setdefault('_orders', set()).add(hash(tuple((e[3], e[4]) for l in ev for e in l if e[1] == T.U)))
        for key, x in bad:
            ck.violation(key, 'traversal %d: %s\n%s' % (t, x, text), cases.replay_files(dd))
    tl.shutil.rmtree(dd)


def main():
    ck = tl.Check('C04')
    ck.rule = ('a case is one run of one to four traversals over (mesh, partition, ranks, threads, message scheme, step '
               'limit, delays, payload size); distinct by all of these')
    ck.assumptions = ['acyclic meshes', 'faces with |Omega.n| <= 1e-10 carry no dependency']
    exe = tl.build_sweep('debug', [tl.HARN + '/h_trav.cc'], 'h_trav', main=False)
    tl.pmap(lambda i: one(ck, exe, i), range(ck.n(350, 5000)))
    ck.extra['distinct visit orders'] = len(ck.extra.pop('_orders', ()))
    return ck.finish()
