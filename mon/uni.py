"""Workload generators and exact readings for uniform (infinite) MPS."""
import numpy as np
from . import dense as dn
from .core import Inconclusive

STYLES = ['random', 'random', 'real', 'scaled', 'graded', 'lowrank', 'product', 'permuted']
MODES = ['brute', 'arpack', 'power']


def cplx(rng, *s):
    return rng.randn(*s) + 1j * rng.randn(*s)


def rand_cell(rng, L, q, D, style):
    """Tensors of one unit cell, (q, D, D) each."""
    if style in ('random', 'real', 'scaled', 'graded', 'permuted'):
        As = []
        base = rng.uniform(-6, 6) if L == 1 else rng.uniform(-.5, .5)
        for k in range(L):
            a = cplx(rng, q, D, D) / np.sqrt(q * D)
            if style == 'real':
                a = a.real + 0j
            if style == 'scaled':
                a = a * 10. ** (base + rng.uniform(-.3, .3))
            if style == 'graded':
                a = a * (10. ** (-0.5 * np.arange(min(D, 5))[np.arange(D) % 5]))
            if style == 'permuted':
                # sparse integer-like tensors (many exact zeros)
                a = a * (rng.rand(q, D, D) < 0.6) + 0.3 * np.eye(D)
            As.append(a)
        return As
    if style == 'product':
        As = []
        for k in range(L):
            a = np.zeros((q, D, D), dtype=complex)
            a[:, 0, 0] = cplx(rng, q)
            As.append(a)
        return As
    if style == 'lowrank':
        d = rng.randint(1, D + 1)
        core = rand_cell(rng, L, q, d, 'random')
        G = [np.linalg.qr(cplx(rng, D, D))[0] for k in range(L)]
        As = []
        for k in range(L):
            a = np.zeros((q, D, D), dtype=complex)
            a[:, :d, :d] = core[k]
            As.append(np.einsum('ab,sbc,cd->sad', G[k - 1].conj().T, a, G[k]))
        return As
    raise ValueError(style)


def draw(rng, mon, Lmax=3, qmax=3, Dmax=7, gap=0.05, styles=STYLES, qmin=1, full_rank=None, Dmin=1):
    """A random unit cell with a well separated leading transfer eigenvalue.

    Returns (As, U, info). `full_rank` = smallest allowed Schmidt value^2."""
    for _ in range(200):
        L = rng.randint(1, Lmax + 1)
        q = rng.randint(qmin, qmax + 1)
        D = rng.randint(Dmin, Dmax + 1)
        style = styles[rng.randint(len(styles))]
        if q == 1:
            D = 1
        As = rand_cell(rng, L, q, D, style)
        U = dn.Uniform(As)
        if not (U.gap > gap) or abs(U.lam.imag) > 1e-8 * abs(U.lam):
            continue
        sp = [U.schmidt_sq(k) for k in range(L)]
        mn = min(x.min() for x in sp)
        # Schmidt values must be clearly nonzero or clearly zero
        if any(((np.abs(x) > 1e-12) & (x < 1e-6)).any() for x in sp):
            continue
        if full_rank is not None and mn < full_rank:
            continue
        rank = [int((x > 1e-9).sum()) for x in sp]
        info = dict(L=L, q=q, D=D, style=style, gap=round(float(U.gap), 3), rank=rank)
        mon.info.update(info)
        mon.event("cell:" + style)
        return As, U, info
    raise Inconclusive("no suitable state drawn")


def make(cls, As, *args, **attrs):
    """An object of class cls holding As, not yet updated."""
    q, D = As[0].shape[:2]
    s = cls(D, q, *args, L=len(As), do_update=False)
    for k, v in attrs.items():
        setattr(s, k, v)
    for k, a in enumerate(As):
        s.A[k][:] = a
    return s


def setmode(s, mode):
    s.ev_brute = mode == 'brute'
    s.ev_use_arpack = mode == 'arpack'
    return s


def full(x, D=None):
    """A dense copy of an environment / special matrix."""
    if hasattr(x, 'toarray'):
        return np.array(x.toarray())
    return np.array(x)


def env_errors(s):
    """Largest deviation of s.l, s.r from the exact fixed-point equations and
    from the normalisation tr(l r) = 1, over all bonds."""
    L = s.L
    l = [full(x) for x in s.l]
    r = [full(x) for x in s.r]
    e = {'l': 0., 'r': 0., 'norm': 0., 'herm': 0., 'pos': 0.}
    for k in range(L):
        x = l[k]
        x = sum(a.conj().T.dot(x).dot(a) for a in s.A[(k + 1) % L])
        t = l[(k + 1) % L]
        e['l'] = max(e['l'], abs(x - t).max() / max(abs(t).max(), 1e-300))
        y = sum(a.dot(r[k]).dot(a.conj().T) for a in s.A[k])
        t = r[(k - 1) % L]
        e['r'] = max(e['r'], abs(y - t).max() / max(abs(t).max(), 1e-300))
        e['norm'] = max(e['norm'], abs(np.trace(l[k].dot(r[k])) - 1))
        for z in (l[k], r[k]):
            sc = abs(z).max()
            e['herm'] = max(e['herm'], abs(z - z.conj().T).max() / sc)
            e['pos'] = max(e['pos'], -np.linalg.eigvalsh((z + z.conj().T) / 2).min() / sc)
    return e


def state_distance(U, V, m=3):
    """Distance of two uniform states through their local density matrices
    (first order in the difference, blind to gauge, norm and phase)."""
    m = max(1, m)
    return max(abs(U.rdm(k, m) - V.rdm(k, m)).max() for k in range(U.L))
