"""C07: message passing is correct for every buffering and timing the standard
allows.

The real programs run under a preloaded MPI monitor that makes sends
synchronous, receives deliver late, probes and tests fail for a while and
everything take random time, and that watches buffers, requests, messages,
sizes and threads.  The result has to be that of the undisturbed run."""
import collections
import os
import random
import re
import numpy as np
import cases
import meshlib as ml
import tycholib as tl

KINDS = ['TraverseGraph', 'OriginalTycho1', 'OriginalTycho2', 'PBJ', 'PBJOuter', 'PBJSI', 'Schur', 'SchurOuter', 'SchurKrylov']


def logs(dd, nr):
    """-> violations, statistics; offline part of the monitor"""
    bad = []
    st = collections.Counter()
    sends, recvs, colls = collections.defaultdict(collections.Counter), collections.defaultdict(collections.Counter), []
    complete = True
    for q in range(nr):
        p = '%s/shim.%d' % (dd, q)
        col = []
        end = False
        for l in (open(p, errors='replace') if os.path.exists(p) else []):
            w = l.split()
            if not w:
                continue
            if w[0] == 'VIOL':
                bad.append((w[1], l.strip()))
            elif w[0] == 'S':
                sends[(q, int(w[2]), w[1], w[3])][(w[4], w[5])] += 1
                st['messages'] += 1
            elif w[0] == 'R':
                recvs[(int(w[2]), q, w[1], w[3])][(w[4], w[5])] += 1
            elif w[0] == 'C':
                col.append(tuple(w[1:]))
            elif w[0] == 'STAT':
                for k, v in zip(w[1::2], w[2::2]):
                    if k != 'level':
                        st[k] += int(v)
            elif w[0] == 'END':
                end = True
        complete = complete and end
        colls.append(col)
    if complete:
        for k in set(sends) | set(recvs):
            if sends[k] != recvs[k]:
                a, b = sends[k] - recvs[k], recvs[k] - sends[k]
                bad.append(('unmatched', 'messages from %d to %d tag %s: sent but not received so %s, received but not sent so %s'
                            % (k[0], k[1], k[3], dict(list(a.items())[:4]), dict(list(b.items())[:4]))))
        for q in range(1, nr):
            if colls[q] != colls[0]:
                i = next((i for i, (x, y) in enumerate(zip(colls[q], colls[0])) if x != y), min(len(colls[q]), len(colls[0])))
                bad.append(('collectives', 'ranks 0 and %d make different collective calls, first at number %d: %s / %s' % (
                    q, i, colls[0][i:i + 1], colls[q][i:i + 1])))
    return bad, st, complete


def shim_env(rng, shim, i):
    sync = rng.random() < 0.6
    e = {'SHIM_SYNC': int(sync), 'SHIM_SPUR': rng.choice([0, 30, 60, 90]), 'SHIM_DELAY': rng.choice([0, 5, 30, 80]),
         'SHIM_SHADOW': int(rng.random() < 0.8), 'SHIM_SEED': rng.randrange(1000), 'SHIM_SLOW': rng.choice([-1, 0, 1, 2]),
         'MALLOC_PERTURB_': rng.choice([0, 165]), 'SHIM_LOG': 'shim'}
    if rng.random() < 0.3:
        e['OMPI_MCA_btl_vader_eager_limit'] = 256
        e['OMPI_MCA_btl_vader_max_send_size'] = 4096
    return e


def one(ck, exe, shim, i):
    rng = random.Random('C07/%d/%d' % (ck.seed, i))
    kind = KINDS[i % len(KINDS)] if i % 2 else rng.choice(KINDS[:3])
    mdesc, m = cases.gen_mesh(rng, cases.sz(rng, i, ['tiny', 'small', 'small', 'small', 'mid'], 17))
    d = cases.gen_deck(rng, SweepType=kind, iterMax=rng.choice([1, 2]), nGroups=rng.choice([1, 2, 8]), DD_IterMax=4, DD_ErrMax=1e-5)
    # one cell per step on many cells means very many messages
    if len(m.cells) > 60 and d['maxCellsPerStep'] < 3:
        d['maxCellsPerStep'] = 20
    if kind.startswith('Schur'):
        d['SourceIteration'] = rng.choice(['true', 'false'])
        d['errMax'] = 1e-4
    nr = min(rng.choice([1, 2, 2, 3, 4, 5, 7]), len(m.cells))
    th = rng.choice([1, 1, 2, 3]) if kind != 'OriginalTycho2' else rng.choice([1, 2, 2, 3, 4])
    if nr * th > 12:
        th = 2
    pv = ml.random_partition(rng, m, nr)
    dd = cases.write_case(ck, i, m, pv, nr, d, rng)
    text = cases.describe(m, mdesc, nr, th, d)
    ref = cases.run_case(exe, dd, nr, th, timeout=60)
    if ref.err:
        ck.case(text, True, text)
        ck.violation('plain-' + ref.err, 'valid problem failed: %s\n%s' % (text, ref.out[-1500:]), cases.replay_files(dd))
        return
    for v in range(2):
        e = shim_env(rng, shim, i)
        if v == 1:
            e.update(SHIM_SYNC=1, SHIM_SHADOW=1)
        for f in os.listdir(dd):
            if f.startswith('shim.'):
                os.unlink(dd + '/' + f)
        full = text + ' monitor=%s' % e
        r = cases.run_case(exe, dd, nr, th, timeout=60, prefix=['env', 'LD_PRELOAD=' + shim] + ['%s=%s' % x for x in e.items()],
                           env={k: x for k, x in e.items() if k.startswith('OMPI')})
        bad, st, complete = logs(dd, nr)
        ck.case(full, nr > 1 or th > 1, {'case': full, 'seen': dict(st)})
        for k, n in st.items():
            ck.count(k, n)
        ck.count('runs %s' % kind)
        if r.err:
            ck.violation(r.err, 'run fails when sends are %s: %s\n%s' % ('synchronous' if e['SHIM_SYNC'] else 'delayed', full, r.out[-1500:]),
                         cases.replay_files(dd))
        elif not complete and not bad:
            ck.inconc('monitor log incomplete: %s' % full)
        for key, x in bad[:5]:
            ck.violation(key, '%s\n%s' % (x, full), cases.replay_files(dd))
        if not r.err:
            same = r.psi.tobytes() == ref.psi.tobytes()
            if not same and kind.startswith('Schur'):
                # Krylov reductions may be summed in another order
                same = np.abs(r.psi - ref.psi).max() <= 1e-6 * np.abs(ref.psi).max()
            if not same:
                ck.violation('result', 'result differs from the undisturbed run by %g of %g: %s' % (
                    np.abs(r.psi - ref.psi).max(), np.abs(ref.psi).max(), full), cases.replay_files(dd))
        if r.err == 'hang':
            break
    tl.shutil.rmtree(dd)


def info(ck, tool, shim, i):
    rng = random.Random('C07/info/%d/%d' % (ck.seed, i))
    mdesc, m = cases.gen_mesh(rng, 'small')
    nr = min(rng.choice([1, 2, 3, 5]), len(m.cells))
    dd = cases.write_case(ck, 'info%d' % i, m, ml.random_partition(rng, m, nr), nr, {}, rng)
    e = shim_env(rng, shim, i)
    res = []
    for x in ([], ['env', 'LD_PRELOAD=' + shim] + ['%s=%s' % x for x in e.items()]):
        res.append(tl.run_split(tool, ['m.pmesh', 'verbose'], nr, dd, prefix=x))
    a, b = res
    text = 'ParallelMeshInfo %s ranks %d %s' % (mdesc, nr, e)
    ck.case(text, nr > 1)
    for x in (a, b):
        if x.timeout or x.rc:
            ck.violation('info', 'ParallelMeshInfo failed: %s\n%s' % (text, x.out[-1000:]), cases.replay_files(dd))
            return
    bad, st, complete = logs(dd, nr)
    for key, x in bad[:5]:
        ck.violation('info-' + key, '%s\n%s' % (x, text), cases.replay_files(dd))
    if a.outs != b.outs:
        ck.violation('info-result', 'output differs: %s' % text, cases.replay_files(dd))
    tl.shutil.rmtree(dd)


def main():
    ck = tl.Check('C07')
    ck.rule = ('a case is one monitored run of (mesh, partition, ranks, threads, deck, disturbance); non-trivial with more '
               'than one rank or thread')
    ck.assumptions = ['acyclic meshes', 'probes and tests that fail for a while are within the progress rule of MPI',
                      'MPI is Open MPI over shared memory, everything else is simulated by the monitor']
    exe = tl.build_sweep('plain')
    shim = tl.build_shim(tl.HARN + '/shim_mpi.c')
    tool = tl.build_util('ParallelMeshInfo')
    tl.pmap(lambda i: one(ck, exe, shim, i), range(ck.n(84, 1500)))
    tl.pmap(lambda i: info(ck, tool, shim, i), range(ck.n(4, 40)))
    return ck.finish()
