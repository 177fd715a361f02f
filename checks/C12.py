"""C12: mesh files round-trip exactly and damaged ones are refused.

Real readers and writers copy files of arbitrary records, every truncation of
small files and damaged headers are offered to all programs that read meshes."""
import os
import random
import struct
import cases
import meshlib as ml
import tycholib as tl


def u64(rng):
    return rng.choice([0, 1, rng.randrange(100), rng.getrandbits(32), rng.getrandbits(64), 2 ** 64 - 1, 2 ** 63, 2 ** 31, 2 ** 32])


def word(rng):
    """any bit pattern of a coordinate"""
    return rng.choice([rng.getrandbits(64), struct.unpack('<Q', struct.pack('<d', rng.uniform(-100, 100)))[0],
                       0x7ff0000000000000, 0x7ff8000000000000, 0xfff8000000000123, 1 << 63, 1])


def random_smesh(rng, mx):
    C, F, N = rng.randint(0, mx), rng.randint(0, mx), rng.randint(0, mx)
    b = b'Tycho 2 Serial Mesh'.ljust(32, b'\0') + struct.pack('<4Q', 2, C, F, N)
    b += b''.join(struct.pack('<Q', u64(rng)) for _ in range(9 * C + 5 * F))
    b += b''.join(struct.pack('<Q', word(rng)) for _ in range(3 * N))
    return b


def random_parts(rng, n, mx):
    blobs = []
    for _ in range(n):
        C, F, N = rng.randint(0, mx), rng.randint(0, mx), rng.randint(0, mx)
        b = struct.pack('<3Q', C, F, N)
        b += b''.join(struct.pack('<Q', u64(rng)) for _ in range(10 * C))
        for _ in range(F):
            b += b''.join(struct.pack('<Q', u64(rng)) for _ in range(8)) + struct.pack('<Q', rng.randrange(3))
        for _ in range(N):
            b += b''.join(struct.pack('<Q', word(rng)) for _ in range(3)) + struct.pack('<Q', u64(rng))
        blobs.append(b)
    return blobs


def pack_pmesh(blobs):
    n = len(blobs)
    off = [32 + 8 * (3 + n)]
    for b in blobs:
        off.append(off[-1] + len(b))
    return (b'Tycho 2 Parallel Mesh'.ljust(32, b'\0') + struct.pack('<2Q', 2, n) + struct.pack('<%dQ' % (n + 1), *off) +
            b''.join(blobs))


def roundtrip(ck, ser, i):
    rng = random.Random('C12/rt/%d/%d' % (ck.seed, i))
    dd = ck.sub('rt%d' % i)
    kind = 's' if i % 2 == 0 else 'p'
    mx = rng.choice([0, 2, 10, 60])

    def make():
        if kind == 's':
            if rng.random() < 0.3:
                cases.gen_mesh(rng, 'small')[1].write(dd + '/t')
                return open(dd + '/t', 'rb').read()
            return random_smesh(rng, mx)
        if rng.random() < 0.3:
            m = cases.gen_mesh(rng, 'small')[1]
            n = min(rng.randint(1, 5), len(m.cells))
            ml.write_pmesh(dd + '/t', ml.make_parts(m, ml.random_partition(rng, m, n), n, rng))
            return open(dd + '/t', 'rb').read()
        return pack_pmesh(random_parts(rng, rng.choice([1, 2, 3, 7, 20]), mx))
    b = make()
    open(dd + '/in', 'wb').write(b)
    args = [kind, 'in', 'out']
    if rng.random() < 0.3:
        open(dd + '/other', 'wb').write(make())
        args = [kind + '2', 'in', 'out', 'other']
    if rng.random() < 0.5:
        open(dd + '/out', 'wb').write(make() * 3)
    r = tl.run_tool(ser, args, cwd=dd)
    text = 'round trip %s of %d bytes' % (args, len(b))
    ck.case('%s %d' % (text, i), len(b) > 64, text)
    ck.count('round trips')
    ck.count('bytes compared', len(b))
    files = cases.replay_files(dd)
    if r.timeout or r.rc != 0:
        ck.violation('roundtrip-failed', 'copying a valid file failed: %s\n%s' % (text, r.out[-800:]), files)
        return
    o = open(dd + '/out', 'rb').read()
    if o != b:
        k = next((j for j in range(min(len(o), len(b))) if o[j] != b[j]), min(len(o), len(b)))
        ck.violation('roundtrip', 'copy of %d bytes has %d bytes, first difference at %d\n%s' % (len(b), len(o), k, text), files)
    tl.shutil.rmtree(dd)


def parallel(ck, par, i):
    rng = random.Random('C12/par/%d/%d' % (ck.seed, i))
    dd = ck.sub('par%d' % i)
    n = rng.choice([1, 2, 3, 4, 6])
    blobs = random_parts(rng, n, rng.choice([1, 5, 40, 400]))
    b = pack_pmesh(blobs)
    open(dd + '/in', 'wb').write(b)
    args = ['r', 'in', 'd']
    if rng.random() < 0.3:
        open(dd + '/other', 'wb').write(pack_pmesh(random_parts(rng, n, 20)))
        args = ['r2', 'in', 'd', 'other']
    r = tl.run_mpi(par, args, n, 1, cwd=dd)
    text = 'parallel read %s on %d ranks' % (args, n)
    ck.case('%s %d' % (text, i), n > 1, text)
    ck.count('partitions read in parallel', n)
    files = cases.replay_files(dd)
    if r.timeout or r.rc != 0:
        ck.violation('hang' if r.timeout else 'parallel-failed', 'reading a valid file failed: %s\n%s' % (text, r.out[-800:]), files)
        return
    for q in range(n):
        if open('%s/d.%d' % (dd, q), 'rb').read() != blobs[q]:
            ck.violation('parallel', 'rank %d read something else than partition %d of the file\n%s' % (q, q, text), files)
    tl.shutil.rmtree(dd)


def refused(ck, what, key, r, dd, mustnot=(), hang_ok=False):
    if r.timeout:
        ck.violation('refuse-hang', '%s: hangs' % what, cases.replay_files(dd))
    elif r.rc == 0 or 'READ COMPLETELY' in r.out:
        ck.violation(key, '%s: accepted (status %s)\n%s' % (what, r.rc, r.out[-600:]), cases.replay_files(dd))
    for f in mustnot:
        if os.path.exists(os.path.join(dd, f)):
            ck.violation(key + '-used', '%s: refused, but %s was written' % (what, f), cases.replay_files(dd))


def damage_header(rng, b, serial, n):
    """-> (what, bytes)"""
    k = rng.randrange(3)
    b = bytearray(b)
    if k == 0:
        j = rng.randrange(32)
        b[j] ^= 1 << rng.randrange(8)
        return 'magic byte %d changed' % j, bytes(b)
    if k == 1:
        v = rng.choice([0, 1, 3, 258, 2 + (1 << 32), 2 + (1 << 63), 2 << 56])
        b[32:40] = struct.pack('<Q', v)
        return 'version %d' % v, bytes(b)
    other = b'Tycho 2 Parallel Mesh' if serial else b'Tycho 2 Serial Mesh'
    b[:32] = rng.choice([other, b'\0' * 32, b'Tycho 2 Psi Output', other + b'\0' * 5 + b'x']).ljust(32, b'\0')
    return 'magic %r' % bytes(b[:32]), bytes(b)


def main():
    ck = tl.Check('C12')
    ck.rule = ('a case is one copied file, one parallel read, or one damaged file offered to one program; '
               'distinct by content and program')
    ck.assumptions = ['files are cut or damaged before the run, not while it reads']
    src = [tl.HARN + '/h_io.cc']
    ser = tl.build_serial('h_ios', src + [tl.SRC + '/SerialMesh.cc', tl.SRC + '/ParallelMesh.cc'], ['-DPARALLEL_MESH_READ_SERIAL_ONLY'])
    par = tl.build_serial('h_iop', src + [tl.SRC + '/' + x + '.cc' for x in ('SerialMesh', 'ParallelMesh', 'Comm', 'Assert')])
    tools = tl.build_utils(['SerialMeshInfo', 'ParallelMeshInfo', 'RefineSerialMesh', 'PartitionColumns', 'PartitionMetis'])
    sweep = tl.build_sweep('plain')

    tl.pmap(lambda i: roundtrip(ck, ser, i), range(ck.n(400, 8000)))
    tl.pmap(lambda i: parallel(ck, par, i), range(ck.n(60, 1200)))

    # every truncation of one small file, both formats, serial readers
    rng = random.Random('C12/cut/%d' % ck.seed)
    m = ml.single_tet(rng)
    dd = ck.sub('cut')
    m.write(dd + '/s')
    ml.write_pmesh(dd + '/p', ml.make_parts(m, [0], 1, rng))
    m2 = cases.gen_mesh(rng, 'small', 'delaunay')[1]
    ml.write_pmesh(dd + '/p2', ml.make_parts(m2, ml.random_partition(rng, m2, 3), 3, rng))
    m2.write(dd + '/s2')
    S, P, P2, S2 = [open(dd + '/' + x, 'rb').read() for x in ('s', 'p', 'p2', 's2')]
    jobs = [('s', S, k) for k in range(len(S))] + [('p', P, k) for k in range(len(P))]
    jobs += [('s', S2, rng.randrange(len(S2))) for _ in range(100)] + [('p', P2, rng.randrange(len(P2))) for _ in range(100)]

    def cut(j):
        i, (kind, b, k) = j
        d = ck.sub('cut%d' % i)
        open(d + '/in', 'wb').write(b[:k])
        r = tl.run_tool(ser, [kind, 'in', 'out'], cwd=d)
        ck.case('cut %s %d of %d' % (kind, k, len(b)), True)
        ck.count('truncations of %s files' % ('serial' if kind == 's' else 'parallel'))
        refused(ck, '%s mesh cut to %d of %d bytes' % (kind, k, len(b)), 'cut', r, d, ['out'])
        tl.shutil.rmtree(d, ignore_errors=True)
    tl.pmap(cut, list(enumerate(jobs)))

    # damaged files and every program
    def damaged(i):
        rng = random.Random('C12/dmg/%d/%d' % (ck.seed, i))
        d = ck.sub('dmg%d' % i)
        prog = ['SerialMeshInfo', 'RefineSerialMesh', 'PartitionColumns', 'PartitionMetis', 'harness', 'ParallelMeshInfo', 'sweep',
                'harness'][i % 8]
        serial = i % 8 < 4
        mm = cases.gen_mesh(rng, rng.choice(['tiny', 'small']))[1]
        n = 1 if serial else min(rng.choice([1, 2, 3, 4]), len(mm.cells))
        ranks = n
        if serial:
            mm.write(d + '/in')
        else:
            blocks = ml.make_parts(mm, ml.random_partition(rng, mm, n), n, rng)
            ml.write_pmesh(d + '/in', blocks)
        b = open(d + '/in', 'rb').read()
        how = rng.choice(['cut', 'cut', 'cut', 'header', 'ranks'])
        if how == 'ranks' and (serial or prog == 'ParallelMeshInfo'):
            how = 'header'
        if how == 'cut':
            head = 64 if serial else 32 + 8 * (3 + n)
            if serial:
                k = rng.choice([rng.randrange(len(b)), rng.randrange(head + 1), len(b) - 1, len(b) - 8, len(b) - 24])
            else:
                off = struct.unpack_from('<%dQ' % (n + 1), b, 48)
                p = rng.randrange(n)
                k = rng.choice([rng.randrange(len(b)), rng.randrange(head + 1), len(b) - 1, len(b) - 8, off[p], off[p] + 8, off[p] + 24,
                                rng.randrange(off[p], off[p + 1])])
            what, b2 = 'cut to %d of %d bytes' % (k, len(b)), b[:k]
        elif how == 'header':
            what, b2 = damage_header(rng, b, serial, n)
        else:
            ranks = rng.choice([x for x in (1, 2, 3, 4, 5) if x != n])
            what, b2 = 'mesh of %d partitions on %d ranks' % (n, ranks), b
        open(d + '/in', 'wb').write(b2)
        what = '%s: %s' % (prog, what)
        ck.case(what + str(i), True, what)
        ck.count('%s offered %s' % (prog, {'cut': 'cut files', 'header': 'bad headers', 'ranks': 'a wrong number of ranks'}[how]))
        if prog == 'SerialMeshInfo':
            r = tl.run_tool(tools[prog], ['in', 'verbose'], cwd=d)
        elif prog == 'RefineSerialMesh':
            r = tl.run_tool(tools[prog], ['in', 'out'], cwd=d)
        elif prog == 'PartitionColumns':
            r = tl.run_tool(tools[prog], [1, 2, 'in', 'out'], cwd=d)
        elif prog == 'PartitionMetis':
            r = tl.run_tool(tools[prog], [min(2, len(mm.cells)), 'in', 'out'], cwd=d)
        elif prog == 'ParallelMeshInfo':
            r = tl.run_mpi(tools[prog], ['in', 'verbose'], ranks, 1, cwd=d, timeout=30)
        elif prog == 'harness':
            r = tl.run_mpi(par, ['r', 'in', 'd'], ranks, 1, cwd=d, timeout=30)
        else:
            open(d + '/x.deck', 'w').write(tl.deck_text(cases.gen_deck(rng, OutputFilename='out')))
            r = tl.run_mpi(sweep, ['in', 'x.deck'], ranks, 1, cwd=d, timeout=30)
        refused(ck, what, 'damage-' + how, r, d, ['out'])
        tl.shutil.rmtree(d, ignore_errors=True)
    tl.pmap(damaged, range(ck.n(240, 4000)))
    return ck.finish()
