"""Runs of the schedule monitor."""


def groups_for(rng, A):
    k = rng.choice([1, 1, 2, 3, A, A + 2])
    kind = rng.random()
    ang = list(range(A))
    if kind < 0.3:
        rng.shuffle(ang)
    out, lo = [], 0
    for g in range(k):
        n = A // k + (1 if g < A % k else 0)
        out.append(ang[lo:lo + n])
        lo += n
    if kind > 0.85:
        out = [rng.sample(range(A), rng.randint(1, A))]
    return out


def spec(groups):
    return ';'.join(','.join(map(str, g)) if g else '-' for g in groups)


def read(dd, nr):
    """-> list per rank of {'steps': {g: n}, 'work': {(g,t): [(cell, angle)]}, 'send':.., 'recv':.., 'left': 0}"""
    out = []
    for r in range(nr):
        d = {'steps': {}, 'work': {}, 'send': {}, 'recv': {}, 'left': None, 'end': False}
        for l in open('%s/sched.%d' % (dd, r)):
            w = l.split()
            if w[0] == 'N':
                d['steps'][int(w[1])] = int(w[2])
            elif w[0] == 'W':
                d['work'].setdefault((int(w[1]), int(w[2])), []).append((int(w[3]), int(w[4])))
            elif w[0] in 'SR':
                d['send' if w[0] == 'S' else 'recv'][(int(w[1]), int(w[2]))] = [int(x) for x in w[3:]]
            elif w[0] == 'LEFT':
                d['left'] = int(w[1])
            elif w[0] == 'END':
                d['end'] = True
        out.append(d)
    return out
