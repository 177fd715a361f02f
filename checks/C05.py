"""C05: the precomputed sweep schedule is complete, ordered and matched.

A monitor builds schedules with the real code on all ranks and writes them
out; the offline oracle replays them against the mesh.  The sweeps driven by
them are also run with more threads than angles and compared with the reference."""
import random
import numpy as np
import cases
import meshlib as ml
import schedlog
import travlog as T
import tycholib as tl


def check(topo, pv, nr, groups, mx, D):
    bad = []
    geo = topo.geo
    A = len(topo.dirs)
    pairs = deps = 0

    def err(key, *a):
        if len(bad) < 6:
            bad.append((key, ' '.join(str(x) for x in a)))
    for g, angles in enumerate(groups):
        ns = {d['steps'].get(g) for d in D}
        if len(ns) != 1:
            err('steps', 'group', g, 'number of steps per rank', [d['steps'].get(g) for d in D])
            continue
        ns = ns.pop()
        when = {}
        for r, d in enumerate(D):
            pos = 0
            for t in range(ns):
                w = d['work'].get((g, t), [])
                if len(w) > mx:
                    err('limit', 'rank', r, 'step', t, 'holds', len(w), 'pairs, limit', mx)
                for (c, a) in w:
                    pairs += 1
                    if not (0 <= c < geo.C and pv[c] == r and a in angles):
                        err('foreign', 'rank', r, 'schedules cell', c, 'angle', a, 'of group', g)
                        continue
                    if (c, a) in when:
                        err('twice', 'cell', c, 'angle', a, 'scheduled twice')
                    when[(c, a)] = (t, pos)
                    pos += 1
        want = geo.C * len(angles)
        if len(when) != want:
            err('missing', 'group', g, 'schedules', len(when), 'of', want, 'pairs')
        need = {}
        for (c, a), (t, pos) in when.items():
            for k in range(4):
                nb = int(geo.nb[c, k])
                s = topo.sign[c, a, k]
                if nb < 0:
                    continue
                if s < 0 and (nb, a) in when:
                    deps += 1
                    tu, pu = when[(nb, a)]
                    if pv[nb] == pv[c]:
                        if pu >= pos:
                            err('order', 'cell', c, 'angle', a, 'before its upwind neighbour', nb, 'on its rank')
                    elif tu >= t:
                        err('order', 'cell', c, 'angle', a, 'in step', t, 'needs cell', nb, 'of another rank in step', tu)
                if s > 0 and pv[nb] != pv[c]:
                    need.setdefault((int(pv[c]), t), set()).add(int(pv[nb]))
        for t in range(ns):
            for r, d in enumerate(D):
                snd = d['send'].get((g, t), [])
                rcv = d['recv'].get((g, t), [])
                if len(set(snd)) != len(snd) or len(set(rcv)) != len(rcv):
                    err('procs', 'rank', r, 'step', t, 'lists a rank twice', snd, rcv)
                if set(snd) != need.get((r, t), set()):
                    err('send', 'rank', r, 'step', t, 'sends to', snd, 'needed by', need.get((r, t), set()))
                w = {q for q in range(nr) if r in need.get((q, t), set())}
                if set(rcv) != w:
                    err('recv', 'rank', r, 'step', t, 'receives from', rcv, 'senders', w)
    for r, d in enumerate(D):
        if d['left']:
            err('left-over', 'rank', r, 'has an unreceived message')
        if not d['end']:
            err('dump', 'rank', r, 'incomplete')
    return bad, pairs, deps


def one(ck, exe, sweep, i):
    rng = random.Random('C05/%d/%d' % (ck.seed, i))
    desc, m = cases.gen_mesh(rng, cases.sz(rng, i, ['tiny', 'small', 'small', 'mid'], 23))
    N = rng.choice([2, 2, 4])
    nr = min(rng.choice([1, 2, 3, 4, 5]), len(m.cells))
    pv = ml.random_partition(rng, m, nr)
    if i % 4 == 3:
        # the schedule-driven sweeps themselves
        d = cases.gen_deck(rng, snOrder=2, SweepType=rng.choice(['OriginalTycho1', 'OriginalTycho2']), iterMax=1)
        th = rng.choice([1, 2, 5, 8, 9, 11])
        if d['SweepType'] == 'OriginalTycho2':
            nr = min(nr, 2)
            pv = ml.random_partition(rng, m, nr)
            th = min(th, 9)
        dd = cases.write_case(ck, i, m, pv, nr, d, rng)
        text = cases.describe(m, desc, nr, th, d)
        r = cases.run_case(sweep, dd, nr, th, timeout=90)
        ck.case(text, True, text)
        ck.count('sweeps with %d threads' % th)
        if r.err:
            ck.violation(r.err, 'scheduled sweep failed: %s\n%s' % (text, r.out[-1500:]), cases.replay_files(dd))
            return
        pr = cases.problem(m, d)
        df = np.abs(pr.defect(r.psi, pr.phi(0 * r.psi)))
        if not df.max() <= 1e-9 * np.abs(r.psi).max() + 1e-300:
            ck.violation('sweep', 'sweep does not solve its equations: %g of %g: %s' % (df.max(), np.abs(r.psi).max(), text),
                         cases.replay_files(dd))
        return
    w = cases.wide(rng, i, 24)
    if w:
        desc, m, N, _ = w
        nr = min(nr, len(m.cells))
        pv = ml.random_partition(rng, m, nr)
    topo = T.Topo(m, N)
    groups = schedlog.groups_for(rng, len(topo.dirs))
    mx = rng.choice([1, 1, 2, 5, 30, 100000])
    dd = cases.write_case(ck, i, m, pv, nr, {}, rng)
    args = ['mesh=m.pmesh', 'sn=%d' % N, 'max=%d' % mx, 'intra=%d' % rng.randrange(5), 'inter=%d' % rng.randrange(3),
            'angles=' + schedlog.spec(groups)]
    r = tl.run_mpi(exe, args, nr, rng.choice([1, 1, 3]), cwd=dd, timeout=60)
    text = '%s %d cells %d ranks %s' % (desc, len(m.cells), nr, ' '.join(args))
    ck.case(text, True, text)
    if r.timeout or r.rc != 0:
        ck.violation('hang' if r.timeout else 'abort', 'schedule failed: %s\n%s' % (text, r.out[-1500:]), cases.replay_files(dd))
        return
    bad, pairs, deps = check(topo, pv, nr, groups, mx, schedlog.read(dd, nr))
    ck.count('schedules', len(groups))
    ck.count('scheduled pairs', pairs)
    ck.count('dependencies checked', deps)
    for key, x in bad:
        ck.violation(key, '%s\n%s' % (x, text), cases.replay_files(dd))
    tl.shutil.rmtree(dd)


def main():
    ck = tl.Check('C05')
    ck.rule = ('a case is one (mesh, partition, ranks, angle groups, limit, priority kinds) whose schedules are replayed, or '
               'one schedule-driven sweep; distinct by all of these')
    ck.assumptions = ['acyclic meshes', 'faces with |Omega.n| <= 1e-10 carry no dependency']
    exe = tl.build_sweep('debug', [tl.HARN + '/h_sched.cc'], 'h_sched', main=False)
    sweep = tl.build_sweep('plain')
    tl.pmap(lambda i: one(ck, exe, sweep, i), range(ck.n(280, 4000)))
    return ck.finish()
