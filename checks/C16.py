"""C16: decks are read exactly, and wrong decks are refused before any work.

(a) The real sweep.x, linked with a monitor that writes the settings in use at
the end of the run, reads decks in every layout; (b) damaged decks must stop
every rank; (c) the reader alone answers queries on thousands of generated
decks, against an independent reader."""
import os
import random
import re
import struct
import subprocess
import cases
import meshlib as ml
import tycholib as tl

KEYS = list(tl.DEFAULT_DECK)
INT = ['snOrder', 'iterMax', 'maxCellsPerStep', 'intraAngleP', 'interAngleP', 'nGroups', 'DD_IterMax']
DBL = ['errMax', 'sigmaT1', 'sigmaS1', 'sigmaT2', 'sigmaS2', 'DD_ErrMax']
BOOL = ['OutputFile', 'SourceIteration']
CHOICE = {'MPIType': ['TychoTwoSided', 'CapsaicinTwoSided'], 'GaussElim': ['Original', 'NoPivot', 'CramerGlu', 'CramerIntel'],
          'SweepType': ['OriginalTycho1', 'OriginalTycho2', 'TraverseGraph', 'PBJ', 'PBJOuter', 'Schur', 'SchurOuter', 'PBJSI', 'SchurKrylov']}
TOK = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789+-_.'


def anycase(rng, s):
    k = rng.randrange(4)
    return s if k == 0 else s.upper() if k == 1 else s.lower() if k == 2 else ''.join(rng.choice([c.upper(), c.lower()]) for c in s)


def spell_int(rng, v):
    return rng.choice(['%d', '%d', '+%d', '%03d', '%06d', '+0%d']) % v


def spell_dbl(rng, v):
    s = rng.choice([repr(v), '%.17g' % v, '%.17e' % v, '%.17E' % v, '+%r' % v, '%.25f' % v if 1e-3 < v < 1e6 else repr(v)])
    if v == int(v) and v < 1e6 and rng.random() < 0.5:
        s = rng.choice(['%d', '%d.', '+%d', '%d.000', '%de0', '0%d.0E+00']) % int(v)
    return s


def layout(rng, pairs):
    """the text of a deck"""
    ws = lambda mn: ''.join(rng.choice(' \t') for _ in range(rng.choice([mn, mn, 1, 3, 9]) if mn == 0 else rng.choice([1, 1, 2, 7])))
    out = []
    for k, v in pairs:
        while rng.random() < 0.25:
            out.append(rng.choice(['', '   ', '\t', '# comment', '  #' + k + ' 77', '####', '# a b c # d \t', '#' + '-' * 70, '#\tkey value!$%']))
        tail = ws(0)
        if rng.random() < 0.3:
            tail += rng.choice(['#', ' # note', '# 12', '#%s %s' % (k, v), ' ### !"%&/()=?'])
        out.append(ws(0) + k + ws(1) + v + tail)
    return '\n'.join(out) + rng.choice(['\n', '', '\n\n', '\n# end', '\n   '])


def valid(ck, exe, i):
    rng = random.Random('C16/ok/%d/%d' % (ck.seed, i))
    desc, m = cases.gen_mesh(rng, 'tiny')
    nr = min(rng.choice([1, 1, 2, 3]), len(m.cells))
    pv = ml.random_partition(rng, m, nr)
    d = cases.gen_deck(rng)
    # values that differ in every place where settings could be mixed up
    for k in ('sigmaT1', 'sigmaT2'):
        d[k] = rng.choice([rng.random() * 3, 2.0, 1e-3 * rng.random(), 0.1, float(rng.randint(1, 5)), 7.25, 1.0 / 3])
    for k in '12':
        d['sigmaS' + k] = d['sigmaT' + k] * rng.choice([0.0, rng.random() * 0.7, 0.5])
    d['errMax'] = rng.choice([1e-5, 1e-12, 0.5, 3.7e-9, 1e-300, 0.0])
    d['DD_ErrMax'] = rng.choice([1e-5, 1e-7, 0.25, 4.9e-6])
    d['DD_IterMax'] = rng.choice([20, 30, 47, 100])
    d['iterMax'] = rng.choice([1, 2, 3, 7])
    d['nGroups'] = rng.choice([1, 2, 3])
    d['OutputFile'] = rng.choice(['true', 'false'])
    d['SourceIteration'] = rng.choice(['true', 'true', 'false'])
    d['SweepType'] = rng.choice(CHOICE['SweepType'])
    d['snOrder'] = rng.choice([2, 2, 4])
    d['OutputFilename'] = ''.join(rng.choice(TOK) for _ in range(rng.randint(1, 20))) + 'Z'
    full = dict(tl.DEFAULT_DECK)
    full.update(d)
    pairs = []
    for k in KEYS:
        v = full[k]
        if k in INT:
            v = spell_int(rng, v)
        elif k in DBL:
            v = spell_dbl(rng, float(v))
        elif k in BOOL:
            v = anycase(rng, v)
        pairs.append((anycase(rng, k), v))
    rng.shuffle(pairs)
    dd = cases.write_case(ck, 'ok%d' % i, m, pv, nr, {}, rng)
    t = layout(rng, pairs)
    open(dd + '/x.deck', 'w').write(t)
    th = rng.choice([1, 2])
    r = tl.run_mpi(exe, ['m.pmesh', 'x.deck'], nr, th, env={'MON_GLOBALS': dd + '/glob'}, cwd=dd, timeout=60)
    text = '%d ranks, %d threads, deck %s' % (nr, th, full)
    ck.case(text, True, {'settings': str(full), 'deck': t})
    ck.count('decks in random layouts')
    files = cases.replay_files(dd)
    if r.timeout or r.rc != 0:
        ck.violation('hang' if r.timeout else 'valid-refused', 'a valid deck fails: %s\n%s' % (text, r.out[-800:]), files)
        return
    want = {'g_' + k: str(full[k]) for k in ('snOrder', 'iterMax', 'maxCellsPerStep', 'intraAngleP', 'interAngleP', 'nGroups')}
    want.update({'g_ddIterMax': str(full['DD_IterMax']), 'g_outputFile': str(int(full['OutputFile'] == 'true')),
                 'g_useSourceIteration': str(int(full['SourceIteration'] == 'true')), 'g_outputFilename': full['OutputFilename'],
                 'g_nAngles': str(2 * full['snOrder'] ** 2), 'g_nThreads': str(th), 'g_nAngleGroups': str(th)})
    for k in CHOICE:
        want[k] = full[k]
    dbl = {'g_errMax': float(full['errMax']), 'g_ddErrMax': float(full['DD_ErrMax'])}
    for q in range(nr):
        p = '%s/glob.%d' % (dd, q)
        if not os.path.exists(p):
            ck.inconc('rank %d left no record of its settings' % q)
            continue
        got = {}
        cells = {}
        for l in open(p):
            w = l.rstrip('\n').split(' ')
            if w[0] == 'cell':
                cells[int(w[1])] = (float.fromhex(w[2]), float.fromhex(w[3]))
            else:
                got[w[0]] = w[1]
        for k, v in want.items():
            ck.count('settings compared')
            if got.get(k) != v:
                ck.violation('setting/' + k, 'rank %d uses %s = %s, the deck says %s\n%s\n%s' % (q, k, got.get(k), v, text, t), files)
        for k, v in dbl.items():
            ck.count('settings compared')
            if k not in got or float.fromhex(got[k]) != v:
                ck.violation('setting/' + k, 'rank %d uses %s = %s, the deck says %r\n%s\n%s' % (q, k, got.get(k), v, text, t), files)
        if set(cells) != {c for c in range(len(m.cells)) if pv[c] == q}:
            ck.violation('cells', 'rank %d has cross sections of cells %s\n%s' % (q, sorted(cells), text), files)
        for c, s in cells.items():
            w = (float(full['sigmaT%d' % m.mats[c]]), float(full['sigmaS%d' % m.mats[c]]))
            ck.count('cross sections compared')
            if s != w:
                ck.violation('setting/sigma', 'cell %d of material %d has cross sections %s, the deck says %s\n%s\n%s' % (
                    c, m.mats[c], s, w, text, t), files)
    have = os.path.exists(os.path.join(dd, full['OutputFilename']))
    if have != (full['OutputFile'] == 'true'):
        ck.violation('setting/output', 'flux file %s\n%s\n%s' % ('written' if have else 'not written', text, t), files)
    tl.shutil.rmtree(dd)


def damage(rng, d):
    """-> (what, deck text) that must be refused; d holds spelled settings"""
    full = dict(tl.DEFAULT_DECK)
    full.update(d)
    sp = {k: repr(v) if isinstance(v, float) else str(v) for k, v in full.items()}
    keys = list(KEYS)
    rng.shuffle(keys)
    lines = [[k, sp[k]] for k in keys]
    kind = rng.choice(['missing', 'repeated', 'malformed', 'type', 'type', 'choice', 'empty'])
    k = rng.choice(KEYS)
    if kind == 'missing':
        lines = [l for l in lines if l[0] != k]
        what = 'without ' + k
    elif kind == 'repeated':
        v = rng.choice([sp[k], '3', 'x'])
        lines.insert(rng.randrange(len(lines) + 1), [anycase(rng, k), v])
        what = 'with a second ' + k
    elif kind == 'malformed':
        j = rng.randrange(len(lines))
        k, v = lines[j]
        bad = rng.choice(['%s' % k, '%s = %s' % (k, v), '%s %s %s' % (k, v, v), '%s=%s' % (k, v), '%s %s;' % (k, v), '%s "%s"' % (k, v),
                          '%s: %s' % (k, v), '%s #%s' % (k, v), '$%s %s' % (k, v), '%s %s,' % (k, v), '%s /x' % k, '%s (%s)' % (k, v),
                          '%s\v%s' % (k, v), '%s %s extra' % (k, v), '%s %s !' % (k, v)])
        lines[j] = [bad, '']
        what = 'with line %r' % bad
    elif kind == 'type':
        k = rng.choice(INT + DBL + BOOL)
        if k in INT:
            v = rng.choice(['x', '1.5', '2.0', '1e3', '2x', 'two', '0x2', '2-', '--2', '+', '99999999999', '2147483648', '-2147483649', '4_0', 'true', '2.', '.'])
        elif k in DBL:
            v = rng.choice(['x', '1.0x', '1..0', '1e', '1e+', '--1', '1e999', '1.0.0', 'true', '1-2', '+', '.', '1e5.0', '1d0', 'e5', '-1e400', '1_0'])
        else:
            v = rng.choice(['1', '0', 'yes', 'no', 't', 'truee', 'tru', 'on', 'T', 'False.', '-true', 'falsefalse'])
        lines = [l if l[0] != k else [k, v] for l in lines]
        what = 'with %s %s' % (k, v)
    elif kind == 'choice':
        k = rng.choice(list(CHOICE) + ['intraAngleP', 'interAngleP', 'snOrder', 'maxCellsPerStep', 'nGroups', 'iterMax', 'DD_IterMax'])
        if k in CHOICE:
            v = rng.choice(CHOICE[k])
            v = rng.choice([v + 'x', v[:-1], v.lower(), v.upper(), 'none', '0', v + '2', 'x' + v])
        else:
            v = {'intraAngleP': rng.choice(['5', '-1', '17']), 'interAngleP': rng.choice(['3', '-1', '9']), 'snOrder': rng.choice(['3', '0', '32', '-2']),
                 'maxCellsPerStep': rng.choice(['0', '-1', '-20']), 'nGroups': rng.choice(['0', '-1']), 'iterMax': rng.choice(['-1', '-7']),
                 'DD_IterMax': rng.choice(['-1', '-100'])}[k]
        lines = [l if l[0] != k else [k, v] for l in lines]
        what = 'with %s %s' % (k, v)
    else:
        lines = rng.choice([[], [['#', 'nothing']], [l for l in lines if rng.random() < 0.5]])
        if len(lines) == len(KEYS):
            lines = []
        what = 'with %d of %d settings' % (len(lines), len(KEYS))
    return kind, what, ''.join('%s %s\n' % tuple(l) for l in lines)


def wrong(ck, exe, i):
    rng = random.Random('C16/bad/%d/%d' % (ck.seed, i))
    desc, m = cases.gen_mesh(rng, 'tiny')
    nr = min(rng.choice([1, 1, 2, 3]), len(m.cells))
    d = cases.gen_deck(rng, SweepType=rng.choice(CHOICE['SweepType']), OutputFilename='zz.psi', snOrder=2, DD_IterMax=20)
    dd = cases.write_case(ck, 'bad%d' % i, m, ml.random_partition(rng, m, nr), nr, {}, rng)
    args = ['m.pmesh', 'x.deck']
    if i % 12 == 0:
        args, kind, what = ['m.pmesh', 'no.deck'], 'nofile', 'deck file missing'
    elif i % 12 == 1:
        open(dd + '/x.deck', 'w').write(tl.deck_text(d))
        args, kind, what = ['no.pmesh', 'x.deck'], 'nofile', 'mesh file missing'
    else:
        kind, what, t = damage(rng, d)
        open(dd + '/x.deck', 'w').write(t)
    r = tl.run_split(exe, args, nr, dd, timeout=30)
    text = 'deck %s, %d ranks, sweep %s' % (what, nr, d['SweepType'])
    ck.case(text, True, text)
    ck.count('refusals: ' + kind)
    files = cases.replay_files(dd)
    if r.timeout:
        ck.violation('refuse-hang/' + kind, '%s: hangs' % text, files)
    elif r.rc == 0:
        ck.violation('accepted/' + kind, '%s: accepted\n%s' % (text, (r.outs[0] or '')[-500:]), files)
    elif not any((o or '').strip() for o in r.outs) and not r.out.strip():
        ck.violation('silent/' + kind, '%s: no message' % text, files)
    if any(f.endswith('.psi') for f in os.listdir(dd)):
        ck.violation('wrote/' + kind, '%s: a flux file was written' % text, files)
    tl.shutil.rmtree(dd, ignore_errors=True)


# --- (c) an independent reader
WSP = ' \t'


def ref_read(text):
    """-> {upper-case key: value} or None if the file must be refused"""
    out = {}
    lines = text.split('\n')
    if lines[-1] == '':
        lines.pop()
    for l in lines:
        l = l.split('#')[0].strip(WSP)
        if not l:
            continue
        mt = re.fullmatch(r'([A-Za-z0-9+\-_.]+)[ \t]+([A-Za-z0-9+\-_.]+)', l)
        if not mt or mt.group(1).upper() in out:
            return None
        out[mt.group(1).upper()] = mt.group(2)
    return out


def ref_value(kind, s):
    """-> expected reply, 'refused', or None when either is right"""
    if kind == 's':
        return 's ' + s
    if kind == 'i':
        if re.fullmatch(r'[+-]?[0-9]+', s) and -2 ** 31 <= int(s) < 2 ** 31:
            return 'i %d' % int(s)
        return 'refused'
    if kind == 'b':
        return {'TRUE': 'b 1', 'FALSE': 'b 0'}.get(s.upper(), 'refused')
    if re.fullmatch(r'[+-]?(inf|infinity|nan)', s, re.I) or re.match(r'[+-]?0[xX]', s):
        return None
    if not re.fullmatch(r'[+-]?([0-9]+\.?[0-9]*|\.[0-9]+)([eE][+-]?[0-9]+)?', s):
        return 'refused'
    v = float(s)
    if kind == 'f':
        try:
            v2 = struct.unpack('<f', struct.pack('<f', v))[0]
        except OverflowError:
            return 'refused'
        # rounding twice may differ from rounding once; denormals may be refused
        if v2 != v or 0 < abs(v2) < 1.2e-38 or (v2 == 0 and re.search('[1-9]', s.lower().split('e')[0])):
            return None
        v = v2
    if v in (float('inf'), float('-inf')):
        return 'refused'
    if 0 < abs(v) < 2.3e-308 or (v == 0 and re.search('[1-9]', re.split('[eE]', s)[0])):
        return None
    return (kind, v)


def gen_token(rng):
    r = rng.random()
    if r < 0.3:
        return rng.choice(['+', '-', '', '']) + str(rng.choice([0, 1, 7, 123, 2147483647, 2147483648, rng.getrandbits(40), 2 ** 63]))
    if r < 0.6:
        return rng.choice(['+', '-', '', '']) + rng.choice(['1.5', '.5', '5.', '0.1', '1e5', '1E-5', '1e+05', '3.25e0', repr(rng.random()), '%.17g' % rng.uniform(-1e9, 1e9),
                                                            '1e308', '1e309', '1e38', '1e39', '2.5e-300', '1e-320', 'inf', 'nan', '0x1p3', '1e', '1..2', '1.5e0.5'])
    if r < 0.75:
        return rng.choice(['true', 'false', 'TRUE', 'False', 'tRuE', 'truefalse', 'true.', 'fals', 'yes'])
    return ''.join(rng.choice(TOK) for _ in range(rng.randint(1, 9)))


def gen_line(rng, keys):
    r = rng.random()
    if r < 0.1:
        return rng.choice(['', ' ', '\t \t', '#', '# x y z', '  ## a', ' # key val'])
    k = rng.choice(keys)
    l = rng.choice(['', '', ' ', '\t  ']) + anycase(rng, k) + rng.choice([' ', '\t', '   ', ' \t ']) + gen_token(rng) + rng.choice(['', '', ' ', '\t'])
    if r < 0.3:
        l += rng.choice(['#', '# c', '#1 2 3'])
    return l


def reader(ck, exe, i):
    rng = random.Random('C16/kvr/%d/%d' % (ck.seed, i))
    dd = ck.sub('kvr%d' % i)
    q, want = [], []
    for f in range(60):
        keys = [''.join(rng.choice(TOK) for _ in range(rng.randint(1, 6))) for _ in range(6)]
        keys = list({k.upper(): k for k in keys}.values())
        order = list(keys)
        lines = []
        rng.shuffle(order)
        for k in order:
            lines.append(gen_line(rng, [k]))
        if rng.random() < 0.25:
            lines.insert(rng.randrange(len(lines) + 1), rng.choice([
                gen_line(rng, keys), 'onlykey', 'a b c', 'a=b', 'a b\r', '!x 1', 'a b!', '\x0b', 'a\x0bb', 'key val # ok', 'k1 v1 v2#', '#\r', 'key "v"', 'key\t\tv\x00' if False else 'k; v']))
        t = '\n'.join(lines) + rng.choice(['', '\n', '\n\n'])
        p = '%s/d%d' % (dd, f)
        open(p, 'w', newline='').write(t)
        ref = ref_read(t)
        q.append('open\t' + p)
        want.append((t, q[-1], 'ok' if ref is not None else 'refused'))
        if ref is None:
            ck.count('reader: files that must be refused')
            continue
        ck.count('reader: files')
        for k in keys + ['nosuch']:
            for kind in 'sidfb':
                kk = anycase(rng, k)
                q.append('%s\t%s' % (kind, kk))
                s = ref.get(kk.upper())
                want.append((t, q[-1], 'refused' if s is None else ref_value(kind, s)))
                ck.count('reader: queries')
    r = subprocess.run([exe, dd + '/reply'], input='\n'.join(q) + '\n', stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=120)
    ck.case('reader batch %d' % i, True)
    got = open(dd + '/reply').read().split('\n')[:-1]
    if r.returncode != 0 or len(got) != len(want):
        ck.violation('reader-crash', 'the reader died (status %s) after %d of %d replies: %r\n%s' % (
            r.returncode, len(got), len(want), want[min(len(got), len(want) - 1)], r.stdout[-500:]), {'deck': want[min(len(got), len(want) - 1)][0]})
        return
    for g, (t, query, w) in zip(got, want):
        ok = w is None or (g == w if isinstance(w, str) else g.split()[0] == w[0] and float.fromhex(g.split()[1]) == w[1])
        if not ok:
            ck.violation('reader/' + query.split('\t')[0], 'query %r answers %r instead of %r for deck\n%s' % (query, g, w, t), {'deck': t})
            return
    tl.shutil.rmtree(dd)


def main():
    ck = tl.Check('C16')
    ck.rule = ('a case is one deck text given to sweep.x, or one batch of 60 generated files given to the reader; '
               'distinct by deck and ranks')
    ck.assumptions = ['the settings in use are read from the global variables at MPI_Finalize',
                      'hexadecimal, infinite and denormal numbers may be accepted or refused']
    kv = tl.build_serial('h_kvr', [tl.HARN + '/h_kvr.cc', tl.SRC + '/KeyValueReader.cc'])
    exe = tl.build_sweep('plain', [tl.HARN + '/mon_globals.cc'], 'sweep_glob')
    plain = tl.build_sweep('plain')
    tl.pmap(lambda i: reader(ck, kv, i), range(ck.n(60, 1500)))
    tl.pmap(lambda i: valid(ck, exe, i), range(ck.n(150, 2500)))
    tl.pmap(lambda i: wrong(ck, plain, i), range(ck.n(240, 4000)))
    return ck.finish()
