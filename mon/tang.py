"""Dense tangent-space readings for uniform states (independent of evoMPS)."""
import numpy as np
from . import dense as dn


def energy(As, h):
    """Mean energy per site of the (not necessarily normalised) state."""
    U = dn.Uniform(As)
    return np.mean([U.expect(h, k) for k in range(U.L)]).real


def fd(f, As, X):
    """Directional derivative of f at 0 (central differences, extrapolated) and an estimate of its error."""
    e = 2e-3 * max(abs(a).max() for a in As) / max(max(abs(x).max() for x in X), 1e-300)
    d = [(f(e / 2 ** j) - f(-e / 2 ** j)) / (2 * e / 2 ** j) for j in range(3)]
    g = [(4 * d[j + 1] - d[j]) / 3 for j in range(2)]
    return (16 * g[1] - g[0]) / 15, abs(g[1] - g[0])


class Tang(object):
    def __init__(self, As):
        self.L = len(As)
        U0 = dn.Uniform(As)
        f = U0.lam ** (-.5 / self.L)
        self.fac = f
        self.As = [np.array(a) * f for a in As]
        self.U = U = dn.Uniform(self.As)
        self.D = As[0].shape[1]
        self.q = As[0].shape[0]
        self.Es = [dn.site_E(a) for a in self.As]
        # lv[k]: left vector up to and including site k, rv[k]: right vector after site k
        L = self.L
        self.lv = [None] * L
        self.rv = [None] * L
        v = U.Lv
        self.lv[L - 1] = v
        for k in range(L - 1):
            v = v.dot(self.Es[k])
            self.lv[k] = v
        y = U.R
        self.rv[L - 1] = y
        for k in range(L - 1, 0, -1):
            y = self.Es[k].dot(y)
            self.rv[k - 1] = y

    def cell_E(self, k):
        """Transfer matrix of the cell starting at site k."""
        E = np.eye(self.D ** 2)
        for j in range(self.L):
            E = E.dot(self.Es[(k + j) % self.L])
        return E

    def onsite(self, k, X, Y):
        """<Y|X> for changes of the same site."""
        X, Y = np.asarray(X) * self.fac, np.asarray(Y) * self.fac
        return self.lv[k - 1].dot(dn.site_E(X, Y)).dot(self.rv[k])

    def _right_sum(self, M, p):
        """Y_j = M_j + e^{ip} E_j Y_{j+1} for every site j, without the component along the fixed point at p=0.
        M[j]: right vector in front of site j."""
        L, D = self.L, self.D
        blk = 0
        for j in range(L - 1, -1, -1):
            blk = M[j] + (np.exp(1j * p) * self.Es[j].dot(blk) if j < L - 1 else 0)
        P = np.outer(self.rv[L - 1], self.lv[L - 1])
        E = self.cell_E(0)
        Y = [None] * L
        if p == 0:
            b = blk - self.rv[L - 1] * self.lv[L - 1].dot(blk)
            Y[0] = np.linalg.solve(np.eye(D * D) - E + P, b)
            for j in range(L - 1, 0, -1):
                Y[j] = M[j] - self.rv[j - 1] * self.lv[j - 1].dot(M[j]) + self.Es[j].dot(Y[(j + 1) % L])
        else:
            Y[0] = np.linalg.solve(np.eye(D * D) - np.exp(1j * p * L) * E, blk)
            for j in range(L - 1, 0, -1):
                Y[j] = M[j] + np.exp(1j * p) * self.Es[j].dot(Y[(j + 1) % L])
        return Y

    def gram(self, Y, X, p=0.):
        """<Phi_p(Y)|Phi_p(X)> per cell and momentum normalisation, connected part."""
        L = self.L
        X = [np.asarray(x) * self.fac for x in X]
        Y = [np.asarray(y) * self.fac for y in Y]
        res = 0
        MX = [dn.site_E(X[k], self.As[k]).dot(self.rv[k]) for k in range(L)]
        MY = [dn.site_E(self.As[k], Y[k]).dot(self.rv[k]) for k in range(L)]
        RX = self._right_sum(MX, p)
        RY = self._right_sum(MY, -p)
        for k in range(L):
            res += self.lv[k - 1].dot(dn.site_E(X[k], Y[k])).dot(self.rv[k])
            res += np.exp(1j * p) * self.lv[k - 1].dot(dn.site_E(self.As[k], Y[k])).dot(RX[(k + 1) % L])
            res += np.exp(-1j * p) * self.lv[k - 1].dot(dn.site_E(X[k], self.As[k])).dot(RY[(k + 1) % L])
        if p == 0:
            # each same-site product counts one disconnected term
            for k in range(L):
                res -= (self.lv[k - 1].dot(MX[k])) * (self.lv[k - 1].dot(MY[k]))
        return res

    def _H_right(self, h, k):
        m = h.ndim // 2
        A = [self.As[(k + i) % self.L] for i in range(m)]
        return dn.multi_E(A, A, h).dot(self.rv[(k + m - 1) % self.L])

    def K_right(self, h, k, l, r):
        """Sum of the connected energy terms from site k on, normalised like l, r."""
        Y = self._right_sum([self._H_right(h, j) for j in range(self.L)], 0)[k]
        return (Y * scale(r[(k - 1) % self.L], self.rv[(k - 1) % self.L])).reshape(self.D, self.D)

    def K_left(self, h, k, l, r):
        """Sum of the connected energy terms up to site k (matrix acting as tr(K r))."""
        L, D = self.L, self.D
        m = h.ndim // 2
        # M[j]: terms ending at site j
        M = []
        for j in range(L):
            s = (j - m + 1) % L
            A = [self.As[(s + i) % L] for i in range(m)]
            x = self.lv[(s - 1) % L].dot(dn.multi_E(A, A, h))
            M.append(x - self.lv[j] * x.dot(self.rv[j]))
        blk = 0
        for j in range(L):
            blk = M[(k + 1 + j) % L] + (blk.dot(self.Es[(k + 1 + j) % L]) if j else 0)
        E = self.cell_E((k + 1) % L)
        P = np.outer(self.rv[k], self.lv[k])
        x = np.linalg.solve((np.eye(D * D) - E + P).T, blk)
        x = x - self.lv[k] * x.dot(self.rv[k])
        want = (x * scale(l[k].T, self.lv[k])).reshape(D, D)
        return want.T

    def two_site_norms(self, h):
        """Squared norm per bond (k, k+1) of H|psi> in the two-site tangent space orthogonal to the one-site one."""
        L, D, q = self.L, self.D, self.q
        out = []
        m = h.ndim // 2
        for k in range(L):
            lm = psd(self.lv[k - 1].reshape(D, D).T)           # <x|: tr(l x)
            rm = psd(self.rv[(k + 1) % L].reshape(D, D))
            ls, rs = hroot(lm), hroot(rm)
            A1, A2 = self.As[k], self.As[(k + 1) % L]
            AA = np.einsum('sab,tbc->stac', A1, A2)
            if m == 2:
                C = np.einsum('stuv,uvac->stac', h, AA)
                W = np.einsum('xa,stac,cy->stxy', ls, C, rs)
            else:
                A0, A3 = self.As[k - 1], self.As[(k + 2) % L]
                l2 = psd(self.lv[(k - 2) % L].reshape(D, D).T)
                r2 = psd(self.rv[(k + 2) % L].reshape(D, D))
                lsi, rsi = np.linalg.inv(ls), np.linalg.inv(rs)
                A012 = np.einsum('sab,tbc,ucd->stuad', A0, A1, A2)
                H1 = np.einsum('stuxyz,xyzab->stuab', h, A012)
                # left site contracted with the bra tensor: A0^dagger l2 ...
                W1 = np.einsum('sea,ef,stufd->tuad', A0.conj(), l2, H1)
                W1 = np.einsum('xa,tuad,dy->tuxy', lsi, W1, rs)
                A123 = np.einsum('sab,tbc,ucd->stuad', A1, A2, A3)
                H2 = np.einsum('stuxyz,xyzab->stuab', h, A123)
                W2 = np.einsum('stuab,bc,udc->stad', H2, r2, A3.conj())
                W2 = np.einsum('xa,stad,dy->stxy', ls, W2, rsi)
                W = W1 + W2
            # remove the ranges of the one-site tangent space on either site
            lA = np.einsum('xa,sab->sxb', ls, A1).reshape(q * D, D)
            Ar = np.einsum('sab,by->asy', A2, rs).reshape(D, q * D)
            Ql = np.linalg.qr(lA)[0]
            Qr = np.linalg.qr(Ar.conj().T)[0]
            X = W.transpose(0, 2, 1, 3).reshape(q * D, q * D)
            X = X - Ql.dot(Ql.conj().T.dot(X))
            X = X - X.dot(Qr).dot(Qr.conj().T)
            out.append(np.linalg.norm(X) ** 2)
        return out


def scale(m, v):
    """c with m = c * v for proportional m, v."""
    v = np.asarray(v).reshape(-1)
    return np.vdot(v, np.asarray(m).reshape(-1)) / np.vdot(v, v)


def psd(m):
    m = m / np.trace(m) * abs(np.trace(m)) if abs(np.trace(m)) > 0 else m
    return m


def hroot(m):
    m = (m + m.conj().T) / 2
    w, v = np.linalg.eigh(m)
    return (v * np.sqrt(np.maximum(w, 0))).dot(v.conj().T)
