"""Exact energy readings for a window between uniform bulks: effective vectors in the space (left bond, sites, right bond)."""
import numpy as np
from . import dense as dn, sand
from .tang import psd, hroot


class SandH(sand.View):
    """hL, hR: bulk terms, hC(n): term on sites n .. n + hs - 1, for n = 2 - hs .. N."""

    def __init__(self, AL, AC, AR, hL, hC, hR):
        sand.View.__init__(self, AL, AC, AR)
        self.hs = hL.ndim // 2
        self.hL, self.hC, self.hR = hL, hC, hR
        self.q = self.AL[0].shape[0]
        self.lv, self.rv = self.UL.lr(-1 % len(self.AL))[0], self.UR.lr(-1 % len(self.AR))[1]
        self.lv, self.rv = [v / v.dot(np.eye(int(round(np.sqrt(v.size)))).reshape(-1)) for v in (self.lv, self.rv)]
        self.DL, self.DR = self.AL[0].shape[1], self.AR[0].shape[1]
        self.eL = np.mean([self.UL.expect(hL, k) for k in range(len(self.AL))])
        self.eR = np.mean([self.UR.expect(hR, k) for k in range(len(self.AR))])
        self.Lh, self.Rh = self._left_energy(), self._right_energy()
        self.lm = psd(self.lv.reshape(self.DL, self.DL).T)      # Gram matrix: lm[c, a]
        self.rm = psd(self.rv.reshape(self.DR, self.DR))        # rm[b, d]
        self.ls, self.rs = hroot(self.lm), hroot(self.rm)

    def with_window(self, AC):
        o = object.__new__(SandH)
        o.__dict__.update(self.__dict__)
        o.AC = [np.asarray(a) for a in AC]
        return o

    def _left_energy(self):
        """Sum over all terms inside sites <= 0, without their mean."""
        L, D = len(self.AL), self.DL
        v0 = self.lv
        # left vectors at sites -L .. 0 with the scale of v0
        blk = 0
        for j in range(1 - L, 1):
            s = j - self.hs + 1
            # left fixed point up to site s - 1, scale such that it evolves into v0
            x = self._lat(s - 1)
            As = [self.A(s + i) for i in range(self.hs)]
            M = x.dot(dn.multi_E(As, As, self.hL))
            for k in range(j + 1, 1):
                M = M.dot(dn.site_E(self.A(k)))
            blk = blk + M
        r = self.UL.lr(-1 % L)[1]
        r = r / v0.dot(r)
        blk = blk - v0 * blk.dot(r)
        E = np.eye(D * D)
        for j in range(1 - L, 1):
            E = E.dot(dn.site_E(self.A(j)))
        x = np.linalg.solve((np.eye(D * D) - E + np.outer(r, v0)).T, blk)
        return x - v0 * x.dot(r)

    def _lat(self, n):
        """Left vector up to bulk site n <= 0."""
        L = len(self.AL)
        v = self.lv
        m = n - (n % L) - L                # a cell boundary at or before n
        for k in range(m + 1, n + 1):
            v = v.dot(dn.site_E(self.A(k)))
        return v

    def _rat(self, n):
        """Right vector after bulk site n >= N."""
        L = len(self.AR)
        v = self.rv
        m = n + (-(n - self.N)) % L + L
        for k in range(m, n, -1):
            v = dn.site_E(self.A(k)).dot(v)
        return v

    def _right_energy(self):
        L, D, N = len(self.AR), self.DR, self.N
        v0 = self.rv
        blk = 0
        for j in range(N + 1, N + L + 1):
            As = [self.A(j + i) for i in range(self.hs)]
            M = dn.multi_E(As, As, self.hR).dot(self._rat(j + self.hs - 1))
            for k in range(j - 1, N, -1):
                M = dn.site_E(self.A(k)).dot(M)
            blk = blk + M
        l = self.UR.lr(-1 % L)[0]
        l = l / l.dot(v0)
        blk = blk - v0 * l.dot(blk)
        E = np.eye(D * D)
        for j in range(N + 1, N + L + 1):
            E = E.dot(dn.site_E(self.A(j)))
        x = np.linalg.solve(np.eye(D * D) - E + np.outer(v0, l), blk)
        return x - v0 * l.dot(x)

    def psi(self, AC=None):
        x = np.eye(self.DL, dtype=complex).reshape(self.DL, 1, self.DL)
        for a in (self.AC if AC is None else AC):
            x = np.einsum("psa,tab->pstb", x, a).reshape(self.DL, -1, a.shape[2])
        return x

    def metric(self, x):
        return np.einsum("ca,asb,bd->csd", self.lm, x, self.rm)

    def root(self, x):
        """The vector in an orthonormal basis of the boundary spaces."""
        return np.einsum("ca,asb,bd->csd", self.ls, x, self.rs).reshape(-1)

    def norm2(self, x):
        return np.vdot(x, self.metric(x)).real

    def ext(self, x):
        w = self.hs - 1
        y = x
        for k in range(w):
            y = np.einsum("tab,bsc->atsc", self.A(-k), y).reshape(self.A(-k).shape[1], -1, y.shape[2])
        for k in range(w):
            a = self.A(self.N + 1 + k)
            y = np.einsum("asb,tbc->astc", y, a).reshape(y.shape[0], -1, a.shape[2])
        return y

    def unext(self, y):
        """Contract the outer sites and bonds with the conjugate bulk: <a, s, b| (unit window vectors)."""
        w, q, N = self.hs - 1, self.q, self.N
        D0, D1 = y.shape[0], y.shape[2]
        l = self._lat(-w).reshape(D0, D0)                    # (ket, bra)
        r = self._rat(N + w).reshape(D1, D1)
        y = np.einsum("ac,asb,bd->csd", l, y, r)
        for k in range(w - 1, -1, -1):
            A = self.A(-k)
            z = y.reshape(A.shape[1], q, -1, y.shape[2])
            y = np.einsum("ctsd,tce->esd", z, A.conj())
        for k in range(w - 1, -1, -1):
            A = self.A(N + 1 + k)
            z = y.reshape(y.shape[0], -1, q, A.shape[2])
            y = np.einsum("cstd,ted->cse", z, A.conj())
        return y

    def terms(self):
        return range(2 - self.hs, self.N + 1)

    def apply_term(self, n, X):
        """Term n on the extended vector X."""
        w, q, M = self.hs - 1, self.q, self.N + 2 * (self.hs - 1)
        i = n - (1 - w)
        h = np.asarray(self.hC(n)).reshape(q ** self.hs, q ** self.hs)
        Z = X.reshape(X.shape[0] * q ** i, q ** self.hs, -1)
        return np.einsum("st,atb->asb", h, Z).reshape(X.shape)

    def hpsi(self, x):
        """(H x): conj-linear functional as an array <a,s,b|H|x>, and the expectation value of every window term."""
        X = self.ext(x)
        y = 0
        e = {}
        n2 = self.norm2(x)
        for n in self.terms():
            z = self.unext(self.apply_term(n, X))
            e[n] = np.vdot(x, z) / n2
            y = y + z
        Lh, Rh = self.Lh.reshape(self.DL, self.DL), self.Rh.reshape(self.DR, self.DR)
        y = y + np.einsum("ac,asb,bd->csd", Lh, x, self.rm)
        y = y + np.einsum("ca,asb,bd->csd", self.lm, x, Rh)
        return y, e

    def energy(self, x=None):
        """Energy above the bulks (each with its own mean; the window terms count relative to the left bulk)."""
        x = self.psi() if x is None else x
        y, e = self.hpsi(x)
        return (np.vdot(x, y) / self.norm2(x) - len(self.terms()) * self.eL), e

    def tangent(self, AC=None):
        """Matrix of tangent vectors (flattened window vectors), one column per tensor entry."""
        AC = self.AC if AC is None else AC
        N = self.N
        Ls = [np.eye(self.DL, dtype=complex)]
        for a in AC:
            Ls.append(np.einsum("pa,sab->psb", Ls[-1], a).reshape(-1, a.shape[2]))
        R = np.eye(self.DR, dtype=complex)
        cols = []
        for n in range(N, 0, -1):
            a = AC[n - 1]
            T = np.einsum("pa,st,bQ->psQtab", Ls[n - 1], np.eye(a.shape[0]), R)
            cols.insert(0, T.reshape(Ls[n - 1].shape[0] * a.shape[0] * R.shape[1], a.size))
            R = np.einsum("sab,bQ->asQ", a, R).reshape(a.shape[1], -1)
        return np.concatenate(cols, axis=1)

    def gram_force(self, AC=None):
        """Gram matrix of the tangent vectors and <d_i psi| H - E |psi>."""
        AC = self.AC if AC is None else AC
        x = self.psi(AC)
        T = self.tangent(AC)
        shape = x.shape
        mT = np.array([self.root(T[:, i].reshape(shape)) for i in range(T.shape[1])]).T
        y, e = self.hpsi(x)
        E = np.vdot(x, y) / self.norm2(x)
        F = T.conj().T.dot((y - E * self.metric(x)).reshape(-1))
        return mT, F, E, e

    def flat(self, B):
        return np.concatenate([np.asarray(b).reshape(-1) if b is not None else np.zeros(a.size)
                               for a, b in zip(self.AC, B)])

    def unflat(self, v, AC=None):
        out, k = [], 0
        for a in (self.AC if AC is None else AC):
            out.append(v[k:k + a.size].reshape(a.shape))
            k += a.size
        return out

    # -------------------------------------------------- reference flow
    def rhs(self, AC):
        mT, F, _, _ = self.gram_force(AC)
        U, s, V = np.linalg.svd(mT, full_matrices=False)
        k = s > 1e-10 * s[0]
        b = V[k].conj().T.dot(V[k].dot(F) / s[k] ** 2)
        return self.unflat(b, AC)

    def flow(self, AC, dt, n):
        AC = [np.array(a) for a in AC]
        dt = dt / n
        ax = lambda B, c: [a - c * b for a, b in zip(AC, B)]
        for _ in range(n):
            k1 = self.rhs(AC)
            k2 = self.rhs(ax(k1, dt / 2))
            k3 = self.rhs(ax(k2, dt / 2))
            k4 = self.rhs(ax(k3, dt))
            AC = [a - dt / 6 * (p + 2 * q + 2 * r + s) for a, p, q, r, s in zip(AC, k1, k2, k3, k4)]
        return AC

    def vec(self, AC=None):
        v = self.root(self.psi(AC))
        return v
