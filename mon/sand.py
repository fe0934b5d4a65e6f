"""Exact readings for a nonuniform window between two uniform bulks, from tensors alone."""
import numpy as np
from . import dense as dn


class View(object):
    def __init__(self, AL, AC, AR):
        """AL, AR: unit cells, AC: tensors of sites 1..N."""
        self.AL = [np.array(a, dtype=complex) for a in AL]
        self.AC = [np.array(a, dtype=complex) for a in AC]
        self.AR = [np.array(a, dtype=complex) for a in AR]
        self.N = len(AC)
        self.UL, self.UR = dn.Uniform(self.AL), dn.Uniform(self.AR)
        self.AL = [a * abs(self.UL.lam) ** (-.5 / len(AL)) for a in self.AL]
        self.AR = [a * abs(self.UR.lam) ** (-.5 / len(AR)) for a in self.AR]

    @classmethod
    def of(cls, s):
        return cls(s.uni_l.A, [s.A[n] for n in range(1, s.N + 1)], s.uni_r.A)

    def A(self, n):
        if n < 1:
            return self.AL[(n - 1) % len(self.AL)]
        if n > self.N:
            return self.AR[(n - self.N - 1) % len(self.AR)]
        return self.AC[n - 1]

    def left(self, n):
        """Row vector of everything up to and including site n (arbitrary scale, fixed by n <= 0)."""
        m = min(n, 0)
        v = self.UL.lr((m - 1) % len(self.AL))[0]
        v = v / v.dot(np.eye(int(round(np.sqrt(v.size)))).reshape(-1))
        for j in range(m + 1, n + 1):
            v = v.dot(dn.site_E(self.A(j)))
        return v

    def right(self, n):
        """Column vector of everything after site n."""
        m = max(n, self.N)
        v = self.UR.lr((m - self.N - 1) % len(self.AR))[1]
        v = v / v.dot(np.eye(int(round(np.sqrt(v.size)))).reshape(-1))
        for j in range(m, n, -1):
            v = dn.site_E(self.A(j)).dot(v)
        return v

    def chain(self, items, n, a, b):
        """items (op, m) from site n on, identities on the other sites of [a, b]."""
        v = self.left(a - 1)
        j = a
        todo = [(None, n - a)] + list(items)
        for op, m in todo:
            if op is None:
                for _ in range(m):
                    v = v.dot(dn.site_E(self.A(j)))
                    j += 1
            else:
                v = v.dot(dn.multi_E([self.A(j + i) for i in range(m)], [self.A(j + i) for i in range(m)], op))
                j += m
        for k in range(j, b + 1):
            v = v.dot(dn.site_E(self.A(k)))
        return v.dot(self.right(b))

    def expect(self, items, n):
        if not isinstance(items, list):
            items = [(items, np.asarray(items).ndim // 2)]
        a = min(n, 1)
        b = max(n + sum(m for _, m in items) - 1, self.N)
        return self.chain(items, n, a, b) / self.norm(a, b)

    def norm(self, a, b):
        return self.chain([], a, a, b)

    def ket(self, a, b):
        """Tensor (left bond, s_a..s_b, right bond) as a matrix, and the bond metrics."""
        x = np.array(self.A(a)).transpose(1, 0, 2)
        for j in range(a + 1, b + 1):
            x = np.tensordot(x, self.A(j), axes=([x.ndim - 1], [1]))
        return x

    def rdm(self, a, b):
        """Density matrix of sites a..b (inside or outside the window)."""
        x = self.ket(a, b)
        D0, D1 = x.shape[0], x.shape[-1]
        k = int(np.prod(x.shape[1:-1]))
        x = x.reshape(D0, k, D1)
        lo, hi = min(a, 1), max(b, self.N)
        l = self.left(lo - 1)
        for j in range(lo, a):
            l = l.dot(dn.site_E(self.A(j)))
        r = self.right(hi)
        for j in range(hi, b, -1):
            r = dn.site_E(self.A(j)).dot(r)
        l, r = l.reshape(D0, D0), r.reshape(D1, D1)
        y = np.tensordot(np.tensordot(l, x, axes=([0], [0])), r, axes=([2], [0]))     # (c, s, d): conj indices c, d
        rho = np.einsum('csd,ctd->st', y, x.conj())
        return rho / np.trace(rho)

    def schmidt_sq(self, n):
        lo, hi = min(n, 0), max(n, self.N)
        l = self.left(lo)
        for j in range(lo + 1, n + 1):
            l = l.dot(dn.site_E(self.A(j)))
        r = self.right(hi)
        for j in range(hi, n, -1):
            r = dn.site_E(self.A(j)).dot(r)
        D = int(round(np.sqrt(l.size)))
        w = np.linalg.eigvals(l.reshape(D, D).T.dot(r.reshape(D, D)))
        w = w / w.sum()
        return np.sort(w.real)[::-1]
