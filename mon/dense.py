"""Dense (exponential-size) oracles.  Pure numpy; nothing here calls evoMPS."""
import numpy as np


# ----------------------------------------------------------------- finite
def dense_state(A, N=None):
    """State vector of an open-boundary MPS, A[1..N] with shape (q, Dl, Dr)."""
    if N is None:
        N = len(A) - 1
    psi = np.ones((1, 1), dtype=complex)      # [phys, bond]
    for n in range(1, N + 1):
        a = np.asarray(A[n])
        psi = np.einsum('pa,sab->psb', psi, a).reshape(-1, a.shape[2])
    assert psi.shape[1] == 1
    return psi[:, 0].copy()


def qs_of(A, N=None):
    if N is None:
        N = len(A) - 1
    return [np.asarray(A[n]).shape[0] for n in range(1, N + 1)]


def op_full(op, n, qs):
    """Matrix of a k-site operator on sites n..n+k-1 (1-based).
    op has 2k indices (bra..., ket...), op[s,t] = <s|op|t>."""
    op = np.asarray(op)
    k = op.ndim // 2
    d = int(np.prod(qs[n - 1:n - 1 + k]))
    m = op.reshape(d, d)
    dl = int(np.prod(qs[:n - 1]))
    dr = int(np.prod(qs[n - 1 + k:]))
    return np.kron(np.kron(np.eye(dl), m), np.eye(dr))


def apply_local(op, n, psi, qs):
    op = np.asarray(op)
    k = op.ndim // 2
    d = int(np.prod(qs[n - 1:n - 1 + k]))
    dl = int(np.prod(qs[:n - 1]))
    p = psi.reshape(dl, d, -1)
    return np.einsum('st,atb->asb', op.reshape(d, d), p).reshape(-1)


def apply_ham(terms, psi, qs):
    """terms: dict n -> local operator (2k-index array)."""
    out = np.zeros_like(psi, dtype=complex)
    for n, h in terms.items():
        out += apply_local(h, n, psi, qs)
    return out


def ham_full(terms, qs):
    d = int(np.prod(qs))
    H = np.zeros((d, d), dtype=complex)
    for n, h in terms.items():
        H += op_full(h, n, qs)
    return H


def rdm(psi, n1, k, qs):
    """Reduced density matrix <s|rho|t> of sites n1..n1+k-1 (normalised psi)."""
    dl = int(np.prod(qs[:n1 - 1]))
    d = int(np.prod(qs[n1 - 1:n1 - 1 + k]))
    p = psi.reshape(dl, d, -1)
    return np.einsum('asb,atb->st', p, p.conj())


def rdm_pair(psi, n1, n2, qs):
    """<s1 s2|rho|t1 t2> of the two sites n1 < n2."""
    dl = int(np.prod(qs[:n1 - 1]))
    dm = int(np.prod(qs[n1:n2 - 1]))
    dr = int(np.prod(qs[n2:]))
    p = psi.reshape(dl, qs[n1 - 1], dm, qs[n2 - 1], dr)
    r = np.einsum('aibjc,akblc->ijkl', p, p.conj())
    d = qs[n1 - 1] * qs[n2 - 1]
    return r.reshape(d, d)


def schmidt(psi, n, qs):
    dl = int(np.prod(qs[:n]))
    return np.linalg.svd(psi.reshape(dl, -1), compute_uv=False)


def ray_distance(a, b):
    """Distance of two vectors as rays: 0 iff proportional.  Accurate to
    rounding level (not its square root)."""
    na, nb = np.linalg.norm(a), np.linalg.norm(b)
    if na == 0 or nb == 0:
        return 1.0
    a = a / na
    b = b / nb
    ov = np.vdot(a, b)
    if ov == 0:
        return 1.0
    return float(np.linalg.norm(b - a * (ov)))


def mpo_full(MPO, n1, qs):
    """Dense matrix of an MPO (list of [M1,M2,bra,ket]) from site n1."""
    cur = None
    for W in MPO:
        W = np.asarray(W)
        if cur is None:
            cur = np.einsum('abst->bst', W)   # left bond has dimension 1
        else:
            cur = np.einsum('ast,abuv->bsutv', cur, W)
            b, s, u, t, v = cur.shape
            cur = cur.reshape(b, s * u, t * v)
    m = cur.sum(axis=0) if cur.shape[0] == 1 else None
    assert m is not None
    k = len(MPO)
    dl = int(np.prod(qs[:n1 - 1]))
    dr = int(np.prod(qs[n1 - 1 + k:]))
    return np.kron(np.kron(np.eye(dl), m), np.eye(dr))


def tangent_basis(A, N=None):
    """Columns spanning the tangent space {sum_n A1..B_n..AN} at A."""
    if N is None:
        N = len(A) - 1
    L = [np.ones((1, 1), dtype=complex)]
    for n in range(1, N + 1):
        a = np.asarray(A[n])
        L.append(np.einsum('pa,sab->psb', L[-1], a).reshape(-1, a.shape[2]))
    R = [None] * (N + 1)
    R[N] = np.ones((1, 1), dtype=complex)
    for n in range(N, 0, -1):
        a = np.asarray(A[n])
        R[n - 1] = np.einsum('sab,bp->asp', a, R[n]).reshape(a.shape[1], -1)
    cols = []
    for n in range(1, N + 1):
        a = np.asarray(A[n])
        q, d1, d2 = a.shape
        T = np.einsum('pa,st,bQ->psQtab', L[n - 1], np.eye(q), R[n])
        cols.append(T.reshape(L[n - 1].shape[0] * q * R[n].shape[1], q * d1 * d2))
    return np.concatenate(cols, axis=1)


def tangent_vector(A, B, N=None):
    """Dense vector sum_n A1 .. B_n .. AN (None entries are zero)."""
    if N is None:
        N = len(A) - 1
    out = 0
    for n in range(1, N + 1):
        if B[n] is None:
            continue
        X = [None] + [np.asarray(A[k]) for k in range(1, N + 1)]
        X[n] = np.asarray(B[n])
        out = out + dense_state(X, N)
    return out


def range_projector(M, rtol=1e-9):
    U, s, _ = np.linalg.svd(M, full_matrices=False)
    k = int((s > rtol * s[0]).sum())
    return U[:, :k]


# ---------------------------------------------------------------- uniform
def site_E(A, B=None, op=None):
    """Transfer matrix acting on vec(x) (row-major): x -> sum A_s x B_s^dag
    (right action), op[s,t] = <s|op|t> inserted as sum op[s,t] A_t x B_s^dag."""
    A = np.asarray(A)
    B = A if B is None else np.asarray(B)
    if op is None:
        E = np.einsum('sab,scd->acbd', A, B.conj())
    else:
        E = np.einsum('st,tab,scd->acbd', np.asarray(op), A, B.conj())
    return E.reshape(A.shape[1] * B.shape[1], A.shape[2] * B.shape[2])


def multi_E(As, Bs, op):
    """k-site transfer matrix with a k-site operator (2k indices)."""
    k = len(As)
    X = None
    for A in As:
        A = np.asarray(A)
        X = A[..., :, :] if X is None else np.einsum('pab,sbc->psac', X, A).reshape(-1, X.shape[1], A.shape[2])
    Y = None
    for B in Bs:
        B = np.asarray(B)
        Y = B if Y is None else np.einsum('pab,sbc->psac', Y, B).reshape(-1, Y.shape[1], B.shape[2])
    d = X.shape[0]
    o = np.asarray(op).reshape(d, d)
    E = np.einsum('st,tab,scd->acbd', o, X, Y.conj())
    return E.reshape(X.shape[1] * Y.shape[1], X.shape[2] * Y.shape[2])


class Uniform(object):
    """Dense view of an infinite MPS with unit cell As (list of (q,D,D))."""

    def __init__(self, As, Bs=None):
        self.As = [np.array(a, dtype=complex) for a in As]
        self.Bs = self.As if Bs is None else [np.array(a, dtype=complex) for a in Bs]
        self.L = len(As)
        self.q = self.As[0].shape[0]
        E = np.eye(self.As[0].shape[1] * self.Bs[0].shape[1])
        for a, b in zip(self.As, self.Bs):
            E = E.dot(site_E(a, b))
        self.E = E
        w, V = np.linalg.eig(E)
        o = np.argsort(-np.abs(w))
        self.w = w[o]
        self.lam = self.w[0]
        self.gap = 1 - (abs(self.w[1] / self.w[0]) if len(w) > 1 else 0)
        self.R = V[:, o[0]]
        w2, V2 = np.linalg.eig(E.T)
        o2 = np.argsort(-np.abs(w2))
        self.Lv = V2[:, o2[0]]
        n = self.Lv.dot(self.R)
        self.Lv = self.Lv / n

    def expect(self, op, k=0):
        """<op> with op (2m indices) acting on sites k..k+m-1 of the cell."""
        m = np.asarray(op).ndim // 2
        return self.expect_chain([(op, m)], k)

    def expect_chain(self, items, k=0):
        """items: list of (op, m) (m-site op) or (None, m) = m identity sites,
        starting at cell site k."""
        k = k % self.L
        v = self.Lv
        j = 0
        for _ in range(k):
            v = v.dot(site_E(self.As[j % self.L], self.Bs[j % self.L]))
            j += 1
        for op, m in items:
            if op is None:
                for _ in range(m):
                    v = v.dot(site_E(self.As[j % self.L], self.Bs[j % self.L]))
                    j += 1
            else:
                A = [self.As[(j + i) % self.L] for i in range(m)]
                B = [self.Bs[(j + i) % self.L] for i in range(m)]
                v = v.dot(multi_E(A, B, op))
                j += m
        while j % self.L:
            v = v.dot(site_E(self.As[j % self.L], self.Bs[j % self.L]))
            j += 1
        return v.dot(self.R) / self.lam ** (j // self.L)

    def rdm(self, k, m):
        """<s|rho|t> on m sites from cell site k."""
        d = self.q ** m
        r = np.zeros((d, d), dtype=complex)
        for s in range(d):
            for t in range(d):
                o = np.zeros((d, d))
                o[t, s] = 1.          # |t><s| : expectation = <s|rho|t>
                r[s, t] = self.expect(o.reshape((self.q,) * (2 * m)), k)
        return r

    def lr(self, k):
        """(x_k, y_k): left/right environments of the bond right of cell site k
        (k=-1 or L-1: the cell boundary), as matrices; x as bra row vector."""
        D = self.As[0].shape[1]
        v = self.Lv
        for j in range((k + 1) % self.L):
            v = v.dot(site_E(self.As[j], self.Bs[j]))
        y = self.R
        for j in range(self.L - 1, (k % self.L), -1):
            y = site_E(self.As[j], self.Bs[j]).dot(y)
        return v, y

    def schmidt_sq(self, k):
        """Squared Schmidt values of the bond to the right of cell site k."""
        kk = k % self.L
        v = self.Lv
        if kk != self.L - 1:
            for j in range(kk + 1):
                v = v.dot(site_E(self.As[j], self.Bs[j]))
        y = self.R
        for j in range(self.L - 1, kk, -1):
            y = site_E(self.As[j], self.Bs[j]).dot(y)
        Dd = int(round(np.sqrt(v.size)))
        l = v.reshape(Dd, Dd)      # l[a,c]: sum over (A index a, conj index c)
        r = y.reshape(Dd, Dd)
        w = np.linalg.eigvals(l.T.dot(r))
        w = w / w.sum()
        return np.sort(w.real)[::-1]


def uniform_ray_distance(As, Bs):
    """1 - fidelity per cell, insensitive to gauge, norm and phase."""
    a, b = Uniform(As), Uniform(Bs)
    m = Uniform(As, Bs)
    return abs(1 - abs(m.lam) / np.sqrt(abs(a.lam) * abs(b.lam)))


# ------------------------------------------------------------- generators
def rand_op(rng, qs, herm=False, real=False):
    d = int(np.prod(qs))
    m = rng.randn(d, d) + (0 if real else 1j * rng.randn(d, d))
    if herm:
        m = m + m.conj().T
    m = np.array(m, dtype=complex) / np.sqrt(d)
    return m.reshape(tuple(qs) * 2)


PAULI = {
    'x': np.array([[0, 1], [1, 0]], dtype=complex),
    'y': np.array([[0, -1j], [1j, 0]], dtype=complex),
    'z': np.array([[1, 0], [0, -1]], dtype=complex),
    'i': np.eye(2, dtype=complex),
}


def two_site(a, b):
    """a (x) b as op[s,t,u,v] = <st|..|uv>."""
    return np.einsum('su,tv->stuv', a, b)
