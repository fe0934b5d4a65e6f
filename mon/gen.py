"""Workload generators (states, chains, operators)."""
import numpy as np
from . import dense as dn

KINDS = ['random', 'random', 'real', 'scaled', 'graded', 'product', 'ghz', 'padded', 'w']


def max_D(qs):
    """Largest useful bond dimensions D[0..N]."""
    N = len(qs)
    D = [1] * (N + 1)
    for n in range(1, N):
        D[n] = int(min(np.prod(qs[:n], dtype=float), np.prod(qs[n:], dtype=float), 1e6))
    return D


def rand_chain_shape(rng, maxdim=600, Nmin=1, Nmax=8, Dmax=6, uniform_q=None, over=0.0):
    """(N, D[0..N], q[0..N]) with total Hilbert dimension <= maxdim."""
    while True:
        N = rng.randint(Nmin, Nmax + 1)
        t = rng.rand()
        if uniform_q is not None:
            qs = [uniform_q] * N
        elif t < 0.45:
            qs = [2] * N
        elif t < 0.6:
            qs = [3] * N
        else:
            qs = [int(x) for x in rng.choice([1, 2, 2, 3, 4], N)]
        if np.prod(qs, dtype=float) <= maxdim and (N == 1 or np.prod(qs) > 1):
            break
    t = rng.rand()
    if t < 0.3:
        D = [1] + [int(rng.randint(1, Dmax + 1))] * (N - 1) + [1]
    elif t < 0.55:
        D = [1] + [10 ** 3] * (N - 1) + [1]     # full (corrected down by the code)
    else:
        D = [1] + [int(x) for x in rng.randint(1, Dmax + 1, N - 1)] + [1]
    mx = max_D(qs)
    D = [min(a, b) for a, b in zip(D, mx)]
    if rng.rand() < over:
        # redundantly large bonds (legal input: update() removes them)
        D = [1] + [d + int(rng.randint(0, 4)) for d in D[1:N]] + [1]
        return N, D, [0] + qs
    # neighbouring constraint D[n] <= q D[n-1] etc., as the constructor enforces
    for n in range(1, N):
        D[n] = min(D[n], D[n - 1] * qs[n - 1])
    for n in range(N - 1, 0, -1):
        D[n] = min(D[n], D[n + 1] * qs[n])
    return N, D, [0] + qs


def cplx(rng, *shape):
    return rng.randn(*shape) + 1j * rng.randn(*shape)


def rand_tensors(rng, N, D, q, kind):
    """List A[0..N] (A[0] None) of tensors with bond dims D."""
    A = [None]
    if kind in ('random', 'real', 'scaled'):
        for n in range(1, N + 1):
            a = cplx(rng, q[n], D[n - 1], D[n])
            if kind == 'real':
                a = a.real.astype(complex)
            a = a / np.sqrt(q[n] * D[n - 1])
            if kind == 'scaled':
                a = a * 10. ** rng.uniform(-1.0, 1.0)
            A.append(a)
    elif kind == 'graded':
        # decaying Schmidt spectrum (still well above the zero tolerance)
        base = 10. ** rng.uniform(0.2, 1.2)
        for n in range(1, N + 1):
            a = cplx(rng, q[n], D[n - 1], D[n]) / np.sqrt(q[n] * D[n - 1])
            g = np.array([base ** (-min(k, 3)) for k in range(D[n])])
            A.append(a * g)
    elif kind == 'product':
        for n in range(1, N + 1):
            a = np.zeros((q[n], D[n - 1], D[n]), dtype=complex)
            v = cplx(rng, q[n])
            a[:, 0, 0] = v / np.linalg.norm(v)
            A.append(a)
    elif kind == 'ghz':
        for n in range(1, N + 1):
            a = np.zeros((q[n], D[n - 1], D[n]), dtype=complex)
            k = min(q[n], max(D[n - 1], D[n]))
            for s in range(k):
                a[s, min(s, D[n - 1] - 1), min(s, D[n] - 1)] += 1.
            A.append(a)
        if np.linalg.norm(dn.dense_state(A)) < 1e-12:
            return rand_tensors(rng, N, D, q, 'random')
    elif kind == 'w':
        for n in range(1, N + 1):
            a = np.zeros((q[n], D[n - 1], D[n]), dtype=complex)
            i1, j1 = min(1, D[n - 1] - 1), min(1, D[n] - 1)
            a[0, 0, 0] = 1
            if q[n] > 1:
                a[1, 0, j1] += 1
            if i1 and j1:
                a[0, 1, 1] = 1
            elif i1 and not j1:
                a[0, 1, 0] += 1
            A.append(a)
        if np.linalg.norm(dn.dense_state(A)) < 1e-12:
            return rand_tensors(rng, N, D, q, 'random')
    elif kind == 'padded':
        # random lower-rank state hidden in larger bonds by a random gauge
        d = [max(1, x - rng.randint(0, max(1, x))) for x in D]
        d[0] = d[N] = 1
        core = rand_tensors(rng, N, d, q, 'random')
        for n in range(1, N + 1):
            a = np.zeros((q[n], D[n - 1], D[n]), dtype=complex)
            a[:, :d[n - 1], :d[n]] = core[n]
            A.append(a)
        if rng.rand() < 0.5:
            for n in range(1, N):
                G = np.linalg.qr(cplx(rng, D[n], D[n]))[0]
                A[n] = np.einsum('sab,bc->sac', A[n], G)
                A[n + 1] = np.einsum('ab,sbc->sac', G.conj().T, A[n + 1])
    else:
        raise ValueError(kind)
    return A


def copyA(A):
    return [None if a is None else np.array(a, copy=True) for a in A]


def full_rank(A, N):
    """min over bonds of the smallest/largest Schmidt ratio."""
    psi = dn.dense_state(A, N)
    qs = dn.qs_of(A, N)
    m = 1.0
    for n in range(1, N):
        s = dn.schmidt(psi, n, qs)
        k = A[n].shape[2]
        m = min(m, (s[k - 1] / s[0]) if k <= len(s) else 0.0)
    return m


def partner(rng, o):
    """A second operator, often closely related to o: the same object, an equal copy, its adjoint, ..."""
    j = rng.randint(10)
    if j < 2:
        return o
    if j == 2:
        return o.copy()
    if j == 3:
        return o.conj().T.copy()
    if j == 4:
        return o.conj().copy()
    if j == 5:
        return -o
    if j == 6:
        return np.eye(len(o), dtype=o.dtype)
    return cplx(rng, *o.shape)
