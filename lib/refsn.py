"""Independent reference of the discretised transport problem.

Linear discontinuous Galerkin in space with upwinding on tetrahedra, discrete
ordinates in angle, isotropic scattering.  Written from the weak form:

  -int psi (Omega.grad w_i) + oint w_i psi^up (Omega.n) + sigT int w_i psi
        = int w_i Q,        Q_v = q_v + sigS/(4 pi) phi_v

with grad w_i = -S_i/(3V), S_i the outward area vector of the face opposite
to vertex i.  Everything here is per (cell, angle, vertex, group).
"""
import numpy as np


def gauss_legendre(n):
    x, w = np.polynomial.legendre.leggauss(n)
    return x, w


def quadrature(N):
    """independent set of (direction, weight): product Gauss-Chebyshev x
    Gauss-Legendre.  -> (A,3),(A,) in no particular order"""
    x, w = gauss_legendre(N)
    dirs, wts = [], []
    for i in range(N):
        for k in range(2 * N):
            p = np.pi / N * (k + 0.5)
            s = np.sqrt(1 - x[i] ** 2)
            dirs.append([s * np.cos(p), s * np.sin(p), x[i]])
            wts.append(w[i] * np.pi / N)
    return np.array(dirs), np.array(wts)


class Geometry:
    def __init__(self, m):
        p = m.nodes[m.cells]                      # C,4,3
        self.p = p
        C = len(p)
        V = np.einsum('ij,ij->i', np.cross(p[:, 1] - p[:, 0], p[:, 2] - p[:, 0]), p[:, 3] - p[:, 0]) / 6.0
        self.V = np.abs(V)
        S = np.zeros((C, 4, 3))
        for k in range(4):
            o = [j for j in range(4) if j != k]
            a = 0.5 * np.cross(p[:, o[1]] - p[:, o[0]], p[:, o[2]] - p[:, o[0]])
            d = np.einsum('ij,ij->i', a, p[:, k] - p[:, o[0]])
            a[d > 0] *= -1
            S[:, k] = a
        self.S = S
        self.C = C
        # neighbour across the face opposite vertex k, and vertex correspondence
        fk = {}
        self.nb = -np.ones((C, 4), dtype=int)
        self.nbv = np.zeros((C, 4, 4), dtype=int)   # [c,k,j] = vertex of nb with node of j (j != k)
        cells = m.cells
        for c in range(C):
            for k in range(4):
                key = tuple(sorted(int(cells[c, j]) for j in range(4) if j != k))
                if key in fk:
                    d, l = fk[key]
                    self.nb[c, k], self.nb[d, l] = d, c
                    for j in range(4):
                        if j != k:
                            jj = int(np.nonzero(cells[d] == cells[c, j])[0][0])
                            self.nbv[c, k, j] = jj
                            self.nbv[d, l, jj] = j
                else:
                    fk[key] = (c, k)
        self.mats = np.asarray(m.mats)


def hat_q(geo, dirs, sT, sS):
    """source of the hat problem at the vertices: (C,A,4).  sT,sS per cell"""
    r = geo.p - 50.0
    c = np.sqrt((r ** 2).sum(-1))                 # C,4
    dot = np.einsum('cvx,ax->cav', r, dirs)
    with np.errstate(divide='ignore', invalid='ignore'):
        g = np.where((c > 0)[:, None, :], -dot / (30.0 * c)[:, None, :], 0.0)
        s = g + ((sT - sS)[:, None] * (1 - c / 30.0))[:, None, :]
    return np.where((c <= 30.0)[:, None, :], s, 0.0)


class Problem:
    def __init__(self, m, N, nG, sT, sS):
        """sT, sS: (sigma for material 1, for material 2)"""
        self.geo = Geometry(m)
        self.N = N
        self.nG = nG
        self.dirs, self.wts = quadrature(N)
        g = self.geo
        self.sT = np.where(g.mats == 1, sT[0], sT[1]).astype(float)
        self.sS = np.where(g.mats == 1, sS[0], sS[1]).astype(float)
        self.a = np.einsum('ckx,ax->cak', g.S, self.dirs)     # C,A,4 signed flux area
        # faces parallel to a direction carry nothing
        ar = np.linalg.norm(g.S, axis=-1)[:, None, :]
        self.a = np.where(np.abs(self.a) < 1e-10 * ar, 0.0, self.a)
        self.q = hat_q(g, self.dirs, self.sT, self.sS)        # C,A,4
        self.Mm = (np.ones((4, 4)) + np.eye(4)) / 20.0
        self._A = None

    def matrices(self):
        if self._A is None:
            g = self.geo
            C, A = g.C, len(self.dirs)
            M = np.zeros((C, A, 4, 4))
            M += (self.a / 12.0)[..., :, None]
            M += (self.sT * g.V)[:, None, None, None] * self.Mm
            ap = np.maximum(self.a, 0)
            for k in range(4):
                for i in range(4):
                    for j in range(4):
                        if i != k and j != k:
                            M[:, :, i, j] += ap[:, :, k] / 12.0 * (2 if i == j else 1)
            self._A = M
        return self._A

    def phi(self, psi):
        """(C,A,4,G) -> (C,4,G)"""
        return np.einsum('a,cavg->cvg', self.wts, psi)

    def upwind(self, psi, sel=None):
        """inflow contribution: (C,A,4,G); sel: (C,4) faces that count"""
        g = self.geo
        r = np.zeros_like(psi)
        an = np.minimum(self.a, 0)
        for k in range(4):
            nb = g.nb[:, k]
            has = nb >= 0
            if sel is not None:
                has = has & sel[:, k]
            f = np.zeros_like(psi)
            for j in range(4):
                if j == k:
                    continue
                f[has, :, j, :] = psi[nb[has], :, g.nbv[has, k, j], :]
            tot = f.sum(axis=2, keepdims=True)
            for i in range(4):
                if i == k:
                    continue
                r[:, :, i, :] -= (an[:, :, k] / 12.0)[..., None] * (tot[:, :, 0, :] + f[:, :, i, :])
        return r

    def rhs(self, psi_up, phi, source=None):
        g = self.geo
        Q = (self.q if source is None else source)
        if Q.ndim == 3:
            Q = Q[..., None]
        Q = Q + (self.sS[:, None, None] / (4 * np.pi) * phi)[:, None, :, :] + np.zeros((1, 1, 1, self.nG))
        b = g.V[:, None, None, None] * np.einsum('ij,cajg->caig', self.Mm, Q)
        return b + self.upwind(psi_up)

    def defect(self, psi, phi, source=None):
        """psi minus the local solve of its own equation: (C,A,4,G)"""
        b = self.rhs(psi, phi, source)
        x = np.linalg.solve(self.matrices(), b)
        return psi - x

    def levels(self, sel=None):
        """wavefront index of every (cell, angle); -1 where cyclic"""
        g = self.geo
        C, A = g.C, len(self.dirs)
        lev = np.zeros((C, A), dtype=int) - 1
        inc = (self.a < 0) & ((g.nb >= 0) if sel is None else (g.nb >= 0) & sel)[:, None, :]
        done = np.zeros((C, A), dtype=bool)
        l = 0
        nbx = np.where(g.nb >= 0, g.nb, 0)
        while not done.all():
            # ready: every inflow neighbour done
            nd = done[nbx]                      # C,4,A
            ready = (~inc | nd.transpose(0, 2, 1)).all(axis=2) & ~done
            if not ready.any():
                return None
            lev[ready] = l
            done |= ready
            l += 1
        return lev

    def sweep(self, phi, source=None):
        """full sweep by wavefronts; needs an acyclic upwind relation"""
        lev = self.levels()
        if lev is None:
            return None
        C, A = lev.shape
        psi = np.zeros((C, A, 4, self.nG))
        M = self.matrices()
        for l in range(lev.max() + 1):
            sel = lev == l
            b = self.rhs(psi, phi, source)
            psi[sel] = np.linalg.solve(M[sel], b[sel])
        return psi

    def local_faces(self, pv):
        """(C,4): faces whose two cells are in one partition"""
        pv = np.asarray(pv)
        return (self.geo.nb >= 0) & (pv[np.maximum(self.geo.nb, 0)] == pv[:, None])

    def sweep_local(self, phi, psi_old, pv, source=None, zero_source=False):
        """sweep inside of partitions with the old flux of other partitions"""
        loc = self.local_faces(pv)
        lev = self.levels(loc)
        if lev is None:
            return None
        C, A = lev.shape
        psi = np.zeros((C, A, 4, self.nG))
        M = self.matrices()
        zero = np.zeros_like(psi)
        fixed = self.rhs(zero, phi, np.zeros_like(self.q) if zero_source else source) + self.upwind(psi_old, ~loc)
        for l in range(lev.max() + 1):
            sel = lev == l
            b = fixed + self.upwind(psi, loc)
            psi[sel] = np.linalg.solve(M[sel], b[sel])
        return psi

    def columns(self, n):
        """the same problem with n independent groups"""
        import copy
        x = copy.copy(self)
        x.nG = n
        return x

    def acyclic(self):
        return self.levels() is not None


class Cut:
    """the inflow values at the faces between partitions, as a vector"""

    def __init__(self, pr, pv):
        self.pr, self.pv = pr, np.asarray(pv)
        g = pr.geo
        self.loc = pr.local_faces(pv)
        self.lev = pr.levels(self.loc)
        ent = []
        for k in range(4):
            for c in np.nonzero((g.nb[:, k] >= 0) & ~self.loc[:, k])[0]:
                for a in np.nonzero(pr.a[c, :, k] < 0)[0]:
                    for j in range(4):
                        if j != k:
                            ent.append((c, k, a, j, g.nb[c, k], g.nbv[c, k, j]))
        e = np.array(ent, dtype=int).reshape(-1, 6)
        self.c, self.k, self.a, self.j, self.nb, self.nbv = e.T
        self.n = len(e)

    def extract(self, psi):
        return psi[self.nb, self.a, self.nbv]

    def inject(self, x):
        """right hand side of inflow x (n,G)"""
        pr = self.pr
        r = np.zeros(pr.q.shape + (x.shape[1],))
        w = -pr.a[self.c, self.a, self.k] / 12.0
        for i in range(4):
            f = w * (self.k != i) * np.where(self.j == i, 2.0, 1.0)
            np.add.at(r, (self.c, self.a, i), f[:, None] * x)
        return r

    def sweep(self, phi, x, source=None):
        """sweep inside of the partitions: scalar flux (C,4,G), inflow (n,G)"""
        pr = self.pr.columns(phi.shape[-1])
        C, A = self.lev.shape
        psi = np.zeros((C, A, 4, pr.nG))
        M = pr.matrices()
        fixed = pr.rhs(np.zeros_like(psi), phi, source) + self.inject(x)
        for l in range(self.lev.max() + 1):
            sel = self.lev == l
            b = fixed + pr.upwind(psi, self.loc)
            psi[sel] = np.linalg.solve(M[sel], b[sel])
        return psi


def gmres(A, b, x0, rtol, maxit, restart=30):
    """restarted GMRES on a dense matrix; -> (x, residual norms).  Norms are
    listed up to the first at most rtol |b| or maxit iterations"""
    x = x0.copy()
    ttol = max(rtol * np.linalg.norm(b), 1e-50)
    hist = []
    while True:
        r = b - A @ x
        beta = np.linalg.norm(r)
        if not hist:
            hist.append(beta)
        if hist[-1] <= ttol or len(hist) > maxit or beta == 0:
            return x, hist
        V = [r / beta]
        H = np.zeros((restart + 1, restart))
        for m in range(restart):
            w = A @ V[m]
            for _ in range(2):
                for i in range(m + 1):
                    h = V[i] @ w
                    H[i, m] += h
                    w = w - h * V[i]
            H[m + 1, m] = np.linalg.norm(w)
            e = np.zeros(m + 2)
            e[0] = beta
            y, *_ = np.linalg.lstsq(H[:m + 2, :m + 1], e, rcond=None)
            hist.append(np.linalg.norm(H[:m + 2, :m + 1] @ y - e))
            done = hist[-1] <= ttol or len(hist) > maxit or H[m + 1, m] < 1e-14 * beta
            if done:
                break
            V.append(w / H[m + 1, m])
        x = x + np.array(V[:m + 1]).T @ y
        if done:
            return x, hist
