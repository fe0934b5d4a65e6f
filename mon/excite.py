"""Momentum-space tangent-vector Hamiltonian by brute-force summation over positions.

<Phi_p(B')| H - e |Phi_p(B)> per unit of 2 pi delta: the bra has B' at site 0, the ket B at any site n with weight
exp(i p n), the Hamiltonian term sits anywhere; sites left of the ket's (bra's) tensor carry A, right of it A_."""
import itertools
import numpy as np


def word_map(kets, bras, h=None):
    """Left-acting map x[bra, ket] -> x'[bra, ket] of a block of sites as a matrix, with an optional operator."""
    D = kets[0].shape[1]

    def fuse(ts):
        b = ts[0]
        for t in ts[1:]:
            b = np.einsum("sab,tbc->stac", b, t).reshape(-1, b.shape[1], t.shape[2])
        return b
    k, b = fuse(kets), fuse(bras)
    if h is not None:
        n = k.shape[0]
        k = np.einsum("st,tab->sab", h.reshape(n, n), k)
    return np.einsum("sab,scd->bdac", b.conj(), k).reshape(b.shape[2] * k.shape[2], b.shape[1] * k.shape[1])


def overlap(l, r, B1, B2):
    """<B2|B1> on one site between the environments l and r."""
    return np.einsum("sab,ac,scd,db->", B2.conj(), l, B1, r, optimize=True)


def eff(A, A_, l, r, Bket, Bbra, h, e, p, R):
    """The matrix element; l[bra, ket] is the left fixed point of A, r[ket, bra] the right one of A_."""
    hs = h.ndim // 2
    q = A.shape[0]
    h = h - e * np.eye(q ** hs).reshape(h.shape)
    ts = {"L": A, "B": Bket, "R": A_}
    tb = {"L": A, "B": Bbra, "R": A_}
    kets = {(0, 0): [(0, "L" * hs)], (1, 1): [(0, "R" * hs)],
            (0, 1): [(m, "L" * m + "B" + "R" * (hs - m - 1)) for m in range(hs)]}
    cache = {}

    def block(bw):
        if bw not in cache:
            c = {}
            for fl, ws in kets.items():
                c[fl] = sum(np.exp(1j * p * m) * word_map([ts[x] for x in w], [tb[x] for x in bw], h) for m, w in ws)
            cache[bw] = c
        return cache[bw]
    one = {(a, b): word_map([ts[a]], [tb[b]]) for a, b in itertools.product("LBR", "LBR")}
    bt = lambda j: "L" if j < 0 else ("B" if j == 0 else "R")
    hist = [(np.asarray(l).ravel().astype(complex), np.zeros(l.size, dtype=complex))]
    H0 = np.zeros(l.size, dtype=complex)
    H1 = np.zeros(l.size, dtype=complex)
    for j in range(-R, R + 1):
        b = bt(j)
        ph = np.exp(1j * p * j)
        n0, n1 = hist[-1]
        H1 = one["R", b].dot(H1) + ph * one["B", b].dot(H0)
        H0 = one["L", b].dot(H0)
        if len(hist) >= hs:
            j0 = j - hs + 1
            o0, o1 = hist[-hs]
            c = block("".join(bt(i) for i in range(j0, j + 1)))
            H0 = H0 + c[0, 0].dot(o0)
            H1 = H1 + c[1, 1].dot(o1) + np.exp(1j * p * j0) * c[0, 1].dot(o0)
        hist.append((one["L", b].dot(n0), one["R", b].dot(n1) + ph * one["B", b].dot(n0)))
        if len(hist) > hs:
            hist.pop(0)
    rr = np.asarray(r).T.ravel()
    return H1.dot(rr)


def profile(A, A_, B, l, r, d, nb):
    """Site tensors 1..2d+1 of the state with one B, and its dense norm."""
    return [A] * (nb - 1) + [B] + [A_] * (2 * d + 1 - nb)


def chain_expect(ts, l, r, ops):
    """<ops> for sites ts with operators {start: array on consecutive sites} (exact contraction)."""
    D = l.shape[0]
    x = np.asarray(l).ravel().astype(complex)
    j = 0
    while j < len(ts):
        o = ops.get(j)
        n = 1 if o is None else o.ndim // 2
        x = word_map(ts[j:j + n], ts[j:j + n], o).dot(x)
        j += n
    return x.dot(np.asarray(r).T.ravel())
