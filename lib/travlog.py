"""Runs of the traversal monitor and their logs, in global terms."""
import random
import numpy as np
import cases
import meshlib as ml
import refsn
import tycholib as tl

U, S, COMM, BEGIN, END, PRIO = 1, 2, 3, 4, 5, 6
DT = np.dtype([('seq', '<i8'), ('type', '<i8'), ('thread', '<i8'), ('cell', '<i8'), ('angle', '<i8'),
               ('adj', '<i8', 4), ('bdry', '<i8', 4)])
OIB, OEB, OI, IIB, IEB, II = range(6)
NAMES = ['OutIntBdry', 'OutExtBdry', 'OutInt', 'InIntBdry', 'InExtBdry', 'InInt']
M64 = 2 ** 64 - 1


def mix(x):
    x = (x + 0x9e3779b97f4a7c15) & M64
    x = ((x ^ (x >> 30)) * 0xbf58476d1ce4e5b9) & M64
    x = ((x ^ (x >> 27)) * 0x94d049bb133111eb) & M64
    return x ^ (x >> 31)


def prio(gcell, angle, seed, rng):
    return mix((gcell * 4099 + angle * 17 + seed) & M64) % rng


class Topo:
    """signs and face numbers of a mesh for one quadrature"""

    def __init__(self, m, N):
        self.geo = refsn.Geometry(m)
        self.dirs, _ = refsn.quadrature(N)
        ar = np.linalg.norm(self.geo.S, axis=-1)
        self.odn = np.einsum('ckx,ax->cak', self.geo.S / ar[..., None], self.dirs)
        self.sign = np.where(np.abs(self.odn) <= 1.01e-10, 0, np.sign(self.odn)).astype(int)
        C = len(m.cells)
        self.gface = np.zeros((C, 4), dtype=int)
        for c in range(C):
            for f in m.cfaces[c]:
                k = [j for j in range(4) if m.cells[c][j] not in m.fnodes[f]][0]
                self.gface[c, k] = f


def read_logs(dd, nr, name='trav'):
    """-> per rank list of traversals; a traversal is the list of its events"""
    out = []
    pr = []
    for r in range(nr):
        a = np.fromfile('%s/%s.%d' % (dd, name, r), dtype=DT)
        a = a[np.argsort(a['seq'], kind='stable')]
        tr, cur = [], None
        pp = {}
        for e in a.tolist():
            if e[1] == BEGIN:
                cur = []
            elif e[1] == END:
                tr.append(cur)
                cur = None
            elif e[1] == PRIO:
                pp[(e[3], e[4])] = int(e[5][0]) & M64
            elif cur is not None:
                cur.append(e)
        out.append(tr)
        pr.append(pp)
    return out, pr
