"""C10: the flux file is complete, in global order, and only written on request.

(a) PsiData::writeToFile of the real code writes arbitrary bit patterns keyed
by global cell, angle, vertex and group on random partitions, again and again,
over files that already exist; every byte of the files is decided.
(b) sweep.x writes its flux where and only where the deck asks for it, and the
values are the ones of the problem (independent discretisation)."""
import os
import random
import struct
import numpy as np
import cases
import meshlib as ml
import tycholib as tl

M = 2 ** 64 - 1


def mix(x):
    x = x + np.uint64(0x9e3779b97f4a7c15)
    x = (x ^ (x >> np.uint64(30))) * np.uint64(0xbf58476d1ce4e5b9)
    x = (x ^ (x >> np.uint64(27))) * np.uint64(0x94d049bb133111eb)
    return x ^ (x >> np.uint64(31))


def cellbytes(seed, step, g, A, G):
    return expected(seed, step, 1, A, G, g)[64:]


def expected(seed, step, C, A, G, first=0):
    with np.errstate(over='ignore'):
        k = mix(np.array([seed * 977 + step], dtype=np.uint64))[0]
        c = np.arange(first, first + C, dtype=np.uint64)[:, None, None, None] << np.uint64(32)
        a = np.arange(A, dtype=np.uint64)[None, :, None, None] << np.uint64(16)
        v = np.arange(4, dtype=np.uint64)[None, None, :, None] << np.uint64(8)
        g = np.arange(G, dtype=np.uint64)[None, None, None, :]
        d = mix(k ^ (c ^ a ^ v ^ g))
    return b'Tycho 2 Psi Output'.ljust(32, b'\0') + struct.pack('<4Q', 1, C, A, G) + d.astype('<u8').tobytes()


def old_content(rng, size):
    k = rng.choice(['none', 'none', 'empty', 'short', 'same', 'larger', 'huge'])
    n = {'none': None, 'empty': 0, 'short': rng.randint(1, 100), 'same': size, 'larger': size + rng.choice([1, 8, 64, 1000]),
         'huge': size * 3 + 5000}[k]
    return k, None if n is None else bytes([rng.choice([0xff, 0xaa, 0x41])]) * n


def hist(ck, exe, i):
    rng = random.Random('C10/h/%d/%d' % (ck.seed, i))
    desc, m = cases.gen_mesh(rng, cases.sz(rng, i, ['tiny', 'small', 'small', 'mid'], 13))
    nr = cases.gen_ranks(rng, m)
    pv = ml.random_partition(rng, m, nr)
    sn, G = rng.choice([2, 4, 6]), rng.choice([1, 1, 2, 3, 5])
    dd = cases.write_case(ck, 'h%d' % i, m, pv, nr, {}, rng)
    steps = rng.randint(1, 4)
    names = [rng.choice(['a.psi', 'b.psi', 'cc']) for _ in range(steps)]
    C, A = len(m.cells), 2 * sn * sn
    size = 64 + 32 * C * A * G
    olds = {}
    for n in sorted(set(names)):
        k, b = old_content(rng, size)
        olds[n] = k
        if b is not None:
            open(os.path.join(dd, n), 'wb').write(b)
    by = b'not to be touched' * 30
    open(os.path.join(dd, 'bystander.psi'), 'wb').write(by)
    seed = rng.randrange(1, 10 ** 6)
    th = rng.choice([1, 2])
    args = ['mesh=m.pmesh', 'sn=%d' % sn, 'groups=%d' % G, 'seed=%d' % seed, 'n=%d' % steps] + ['file%d=%s' % x for x in enumerate(names)]
    r = tl.run_mpi(exe, args, nr, th, cwd=dd, timeout=60)
    text = '%s (%d cells) ranks=%d threads=%d S%d, %d groups, writes %s over %s' % (desc, C, nr, th, sn, G, names, olds)
    ck.case((desc, nr, sn, G, names, sorted(olds.items())), True, text)
    files = cases.replay_files(dd)
    if r.timeout or r.rc != 0:
        ck.violation('hang' if r.timeout else 'abort', 'writing fails: %s\n%s' % (text, r.out[-800:]), files)
        return
    last = {}
    for s, n in enumerate(names):
        last[n] = s
    for n, s in last.items():
        got = open(os.path.join(dd, n), 'rb').read() if os.path.exists(os.path.join(dd, n)) else b''
        want = expected(seed, s, C, A, G)
        ck.count('file bytes decided', len(want))
        ck.count('old file: ' + olds[n])
        if got != want:
            at = next((j for j in range(min(len(got), len(want))) if got[j] != want[j]), min(len(got), len(want)))
            w = (at - 64) // 8
            ck.violation('bytes', 'file %s after write %d: %d bytes, expected %d; first difference at byte %d (cell %d angle %d vertex %d group %d)\n%s' % (
                n, s, len(got), len(want), at, w // (4 * G * A), w // (4 * G) % A, w // G % 4, w % G, text), files)
            return
    if open(os.path.join(dd, 'bystander.psi'), 'rb').read() != by:
        ck.violation('other-file', 'another file was changed: ' + text, files)
    for q in range(nr):
        if any(l.split()[1] != '0' for l in open('%s/log.%d' % (dd, q))):
            ck.violation('changed', 'writing changed the flux of rank %d: %s' % (q, text), files)
    left = sorted(set(os.listdir(dd)) - set(names) - {'m.pmesh', 'x.deck', 'bystander.psi'} - {'log.%d' % q for q in range(nr)})
    if left:
        ck.violation('stray', 'stray files %s: %s' % (left, text), files)
    tl.shutil.rmtree(dd)


def far(ck, exe, i):
    """cells of high numbers lie beyond 2, 4 and 16 GB in the flux file"""
    rng = random.Random('C10/f/%d/%d' % (ck.seed, i))
    desc, m = cases.gen_mesh(rng, 'tiny')
    nr = cases.gen_ranks(rng, m)
    pv = ml.random_partition(rng, m, nr)
    sn, G = rng.choice([2, 4]), rng.choice([1, 2, 3])
    C, A = len(m.cells), 2 * sn * sn
    rec = 32 * A * G
    dd = cases.write_case(ck, 'f%d' % i, m, pv, nr, {}, rng)
    # number the cells anew
    parts = ml.make_parts(m, pv, nr, rng)
    base = rng.choice([1 << 31, 1 << 32, 1 << 34]) // rec - rng.randint(0, 2)
    for P in parts:
        for c in P.cells:
            if c[8] >= C // 2:
                c[8] += base
    ml.write_pmesh(dd + '/m.pmesh', parts)
    ids = sorted(c[8] for P in parts for c in P.cells)
    seed = rng.randrange(1, 10 ** 6)
    r = tl.run_mpi(exe, ['mesh=m.pmesh', 'sn=%d' % sn, 'groups=%d' % G, 'seed=%d' % seed, 'n=1', 'file0=f.psi'], nr, 1, cwd=dd, timeout=60)
    text = '%s (%d cells, numbers up to %d) ranks=%d S%d, %d groups' % (desc, C, ids[-1], nr, sn, G)
    files = cases.replay_files(dd)
    p = dd + '/f.psi'
    if r.timeout or r.rc != 0:
        # such numbers, with gaps, may be refused
        ck.case(text, False, text)
        ck.count('high cell numbers refused')
        return
    ck.case((desc, nr, sn, G, ids[-1]), True, text)
    if os.path.getsize(p) != 64 + rec * (ids[-1] + 1):
        ck.violation('far', 'flux file has %d bytes, not %d: %s' % (os.path.getsize(p), 64 + rec * (ids[-1] + 1), text), files)
    else:
        with open(p, 'rb') as f:
            h = f.read(64)
            if h != expected(seed, 0, 0, A, G)[:40] + struct.pack('<3Q', C, A, G):
                ck.violation('far', 'header differs: ' + text, files)
            for g in ids:
                f.seek(64 + rec * g)
                if f.read(rec) != cellbytes(seed, 0, g, A, G):
                    ck.violation('far', 'cell %d is not in its place: %s' % (g, text), files)
                    break
                ck.count('cells beyond 2 GB', 1 if g * rec >= 1 << 31 else 0)
    tl.shutil.rmtree(dd)


TOK = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789+-_.'


def whole(ck, exe, i):
    rng = random.Random('C10/w/%d/%d' % (ck.seed, i))
    desc, m = cases.gen_mesh(rng, cases.sz(rng, i, ['tiny', 'small'], 13))
    nr = cases.gen_ranks(rng, m)
    pv = ml.random_partition(rng, m, nr)
    th = rng.choice([1, 2])
    name = ''.join(rng.choice(TOK) for _ in range(rng.choice([1, 3, 9, 40, 100]))).strip('.') + rng.choice(['', '.psi']) + 'qz'
    if name[0] == '-':
        name = 'x' + name
    on = rng.random() < 0.7
    d = cases.gen_deck(rng, iterMax=1, OutputFile='true' if on else 'false', OutputFilename=name,
                       SweepType=rng.choice(['TraverseGraph', 'OriginalTycho1', 'OriginalTycho2', 'PBJ', 'Schur', 'PBJOuter']))
    if d['SweepType'] in ('PBJ', 'Schur', 'PBJOuter'):
        d.update(DD_IterMax=1000, DD_ErrMax=1e-13)
        if d['SweepType'] == 'PBJOuter':
            d.update(sigmaS1=0.0, sigmaS2=0.0)
    dd = cases.write_case(ck, 'w%d' % i, m, pv, nr, d, rng)
    pr = cases.problem(m, d)
    A = len(pr.dirs)
    size = 64 + 32 * len(m.cells) * A * d['nGroups']
    k, old = old_content(rng, size)
    if old is not None:
        open(os.path.join(dd, name), 'wb').write(old)
    before = set(os.listdir(dd))
    r = tl.run_mpi(exe, ['m.pmesh', 'x.deck'], nr, th, cwd=dd, timeout=60)
    text = '%s old file: %s' % (cases.describe(m, desc, nr, th, d), k)
    ck.case((desc, nr, th, sorted(d.items())), True, text)
    files = cases.replay_files(dd)
    if r.timeout or r.rc != 0:
        ck.violation('hang' if r.timeout else 'abort', 'valid problem failed: %s\n%s' % (text, r.out[-800:]), files)
        return
    after = set(os.listdir(dd))
    ck.count('runs with OutputFile %s' % d['OutputFile'])
    p = os.path.join(dd, name)
    if not on:
        if after != before or (old is not None and open(p, 'rb').read() != old):
            ck.violation('unasked', 'files written although OutputFile is false: %s\n%s' % (sorted(after - before), text), files)
    else:
        if after != before | {name}:
            ck.violation('name', 'flux file is not under its name: new files %s\n%s' % (sorted(after - before), text), files)
            return
        try:
            psi = ml.read_psi(p)
        except AssertionError as e:
            ck.violation('file', 'bad flux file: %s\n%s' % (e, text), files)
            return
        if psi.shape != (len(m.cells), A, 4, d['nGroups']):
            ck.violation('shape', 'flux file has shape %s\n%s' % (psi.shape, text), files)
            return
        df = np.abs(pr.defect(psi, np.zeros((len(m.cells), 4, d['nGroups'])) if d['SweepType'] != 'PBJOuter' else pr.phi(psi)))
        sc = np.abs(psi).max()
        if not (np.isfinite(psi).all() and df.max() <= 1e-8 * sc + 1e-300):
            w = np.unravel_index(np.argmax(df), df.shape)
            ck.violation('values', 'the values are not the flux of the first iteration, worst (cell,angle,vertex,group)=%s defect %g of %g\n%s' % (
                w, df.max(), sc, text), files)
        ck.count('flux files compared with the problem')
    tl.shutil.rmtree(dd)


def main():
    ck = tl.Check('C10')
    ck.rule = 'a case is one run that writes (or must not write) flux files; distinct by mesh kind, ranks, sizes, names and old files'
    ck.assumptions = ['local file system', 'names of two or more characters (Open MPI 4.1 itself fails on shorter ones)']
    exe = tl.build_sweep('plain', [tl.HARN + '/h_psi.cc'], 'h_psi', main=False)
    plain = tl.build_sweep('plain')
    tl.pmap(lambda i: hist(ck, exe, i), range(ck.n(100, 2000)))
    tl.pmap(lambda i: far(ck, exe, i), range(ck.n(16, 200)))
    tl.pmap(lambda i: whole(ck, plain, i), range(ck.n(80, 1500)))
    return ck.finish()
