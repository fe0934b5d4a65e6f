"""P17: structured matrices, matrix functions, factorisations and null spaces."""
import sys
import numpy as np
from mon import core, gen, linops
import evoMPS.matmul as mm
import evoMPS.tdvp_common as tm
import evoMPS.nullspace as ns

ID = "P17"
RULE = ("A case draws structured and dense matrices (or one Hermitian, possibly rank-deficient, matrix or site tensor) and "
        "compares every operation with the dense matrices; non-trivial if the size is above one.")
REQUIRED_RULES = ["dense", "dot", "scale", "elementwise", "sum", "adjoint", "trace", "copy", "inverse", "root", "chain", "inner",
                  "in-place", "hermitian-sqrt", "hermitian-inverse", "triangular-inverse", "singular-rejected", "arguments-unchanged",
                  "fac:sqrt", "fac:inverse", "fac:rank", "fac:factor", "null:orthonormal", "null:kernel", "null:dim",
                  "null:tangent", "null:rank"]
ASSUMPTIONS = ["operands of one operation share their dtype (all real or all complex); rank-deficient matrices have their "
               "non-zero eigenvalues well above, and the others well below, the zero tolerance that is passed"]


def cases(tier, seed):
    k = 1 if tier == "quick" else 15
    rng = np.random.RandomState(seed * 31 + 17)
    return [{"kind": kind, "seed": int(rng.randint(1 << 30)), "cost": 1}
            for kind, n in (("struct", 160), ("factor", 160), ("null", 160)) for _ in range(n * k)]


def run(case, mon):
    rng = np.random.RandomState(case["seed"])
    if case["kind"] == "struct":
        linops.check(mm, rng, mon)
        mon.nontrivial = True
        return
    globals()["run_" + case["kind"]](case, rng, mon)


def psd(rng, n, dtype):
    """A positive matrix as evoMPS stores it, its dense form, support projector and rank."""
    rank = n if rng.rand() < 0.5 else int(rng.randint(1, n + 1))
    sc = 10. ** rng.uniform(-2, 2)
    ev = np.zeros(n)
    ev[rng.permutation(n)[:rank]] = sc * 10. ** rng.uniform(-3, 0, rank)
    t = rng.randint(4)
    if t == 0:
        return mm.eyemat(n, dtype=dtype), np.eye(n), np.eye(n), n, 1.
    if t == 1:
        return mm.simple_diag_matrix(ev, dtype=dtype), np.diag(ev), np.diag((ev > 0) * 1.), rank, sc
    Q = np.linalg.qr(gen.cplx(rng, n, n) if np.dtype(dtype).kind == "c" else rng.randn(n, n))[0]
    X = (Q * ev).dot(Q.conj().T)
    X = (X + X.conj().T) / 2
    return X, X.copy(), (Q * (ev > 0)).dot(Q.conj().T), rank, sc


def run_factor(case, rng, mon):
    n = int(rng.randint(1, 10))
    dtype = [complex, complex, float][rng.randint(3)]
    x, X, P, rank, sc = psd(rng, n, dtype)
    zt = sc * 1e-8
    inf = dict(n=n, rank=rank, kind=type(x).__name__, dtype=str(np.dtype(dtype)), sc=sc)
    mon.nontrivial = n > 1
    mon.state(X)
    mon.event("rank-deficient" if rank < n else "full-rank")
    T = 1e-9
    s, si, r = tm.herm_sqrt_inv(x, zero_tol=zt, return_rank=True, sanity_checks=bool(rng.randint(2)))
    S, SI = np.asarray(s), np.asarray(si)
    mon.true("fac:rank", r == rank, got=int(r), **inf)
    mon.le("fac:sqrt", linops.rel(S.dot(S) / sc, X / sc), T, **inf)
    mon.le("fac:sqrt", abs(S - S.conj().T).max() / sc ** .5, T, herm=True, **inf)
    mon.le("fac:sqrt", -min(0, np.linalg.eigvalsh(S).min()) / sc ** .5, T, positive=True, **inf)
    mon.le("fac:inverse", linops.rel(S.dot(SI), P), 1e-6, **inf)
    mon.le("fac:inverse", linops.rel(SI.dot(S), P), 1e-6, **inf)
    mon.le("fac:inverse", np.abs(SI.dot(np.eye(n) - P)).max() * sc ** .5, 1e-4, support=True, **inf)
    m, M, PM, rm, sm = psd(rng, n, dtype)
    four = tm.calc_l_r_roots(x, m, zero_tol=min(zt, sm * 1e-8))
    f = [np.asarray(z) for z in four]
    if zt <= sm * 1e-8 * 1e3:
        mon.le("fac:sqrt", linops.rel(f[0].dot(f[0]) / sc, X / sc), T, pair=True, **inf)
        mon.le("fac:sqrt", linops.rel(f[2].dot(f[2]) / sm, M / sm), T, pair=True, **inf)
    if sm * 1e-8 >= zt * 1e-3 and rm == n and rank == n:
        mon.le("fac:inverse", linops.rel(f[0].dot(f[1]), np.eye(n)), 1e-6, pair=True, **inf)
        mon.le("fac:inverse", linops.rel(f[2].dot(f[3]), np.eye(n)), 1e-6, pair=True, **inf)
    # X = F F^dagger (lower) or F^dagger F
    if inf["kind"] != "ndarray":
        x = X.astype(dtype)
        inf["kind"] = "dense"
    x0 = x.copy()
    for lower in (False, True):
        force = bool(rng.randint(2)) or rank < n
        F, FI, r = tm.herm_fac_with_inv(x, lower=lower, zero_tol=zt, return_rank=True, force_evd=force,
                                        sanity_checks=bool(rng.randint(2)))
        F, FI = np.asarray(F), np.asarray(FI)
        k = dict(lower=lower, force=force, **inf)
        mon.true("fac:rank", r == rank, got=int(r), fac=True, **k)
        Y = F.dot(F.conj().T) if lower else F.conj().T.dot(F)
        mon.le("fac:factor", linops.rel(Y / sc, X / sc), T, **k)
        one = FI.dot(F) if lower else F.dot(FI)
        want = np.zeros(n)
        want[n - rank:] = 1
        if force:
            mon.le("fac:inverse", linops.rel(one, np.diag(want)), 1e-6, fac=True, **k)
            mon.le("fac:inverse", linops.rel(F.dot(FI) if lower else FI.dot(F), P), 1e-6, fac=True, **k)
        else:
            mon.le("fac:inverse", linops.rel(one, np.eye(n)), 1e-6, fac=True, **k)
            mon.le("fac:factor", np.abs(np.triu(F, 1) if lower else np.tril(F, -1)).max(), 0 * sc, triangular=True, **k)
        F2 = tm.herm_fac_with_inv(x, lower=lower, zero_tol=zt, force_evd=force, calc_inv=False)
        mon.le("fac:factor", linops.rel(F2, F), T, noinv=True, **k)
        F3, r3 = tm.herm_fac_with_inv(x, lower=lower, zero_tol=zt, force_evd=force, calc_inv=False, return_rank=True)
        mon.true("fac:rank", r3 == rank, noinv=True, **k)
        F4, FI4 = tm.herm_fac_with_inv(x, lower=lower, zero_tol=zt, force_evd=force)
        mon.le("fac:factor", linops.rel(F4, F), T, norank=True, **k)
    mon.true("arguments-unchanged", np.array_equal(x, x0), what="factor")


def run_null(case, rng, mon):
    dtype = [complex, complex, float][rng.randint(3)]
    c = lambda *s: gen.cplx(rng, *s) if np.dtype(dtype).kind == "c" else rng.randn(*s)
    m, k = [int(z) for z in rng.randint(1, 9, 2)]
    rank = int(rng.randint(1, min(m, k) + 1))
    A = c(m, rank).dot(c(rank, k))
    if rng.rand() < 0.3:
        A = np.asfortranarray(A)
    if k > 1 or m > 1:
        mon.nontrivial = True
    sv = np.linalg.svd(A, compute_uv=False)
    A0 = A.copy()
    ok = sv[rank - 1] > 1e-3
    if ok:
        for kw in (dict(atol=1e-9), dict(atol=0, rtol=1e-9)):
            N = ns.nullspace(A, **kw)
            mon.true("null:dim", N.shape == (k, k - rank), got=N.shape, m=m, k=k, rank=rank)
            mon.le("null:kernel", np.abs(A.dot(N)).max() if N.size else 0., 1e-9 * sv[0])
            mon.le("null:orthonormal", np.abs(N.conj().T.dot(N) - np.eye(N.shape[1])).max() if N.size else 0., 1e-10)
            mon.true("null:rank", ns.rank(A, **kw) == rank, m=m, k=k, rank=rank)
    if m <= k:
        N = ns.nullspace_qr(A)
        mon.true("null:dim", N.shape == (k, k - m), got=N.shape, qr=True, m=m, k=k)
        mon.le("null:kernel", np.abs(A.dot(N)).max() if N.size else 0., 1e-10 * max(1, sv[0]), qr=True)
        mon.le("null:orthonormal", np.abs(N.conj().T.dot(N) - np.eye(N.shape[1])).max() if N.size else 0., 1e-10, qr=True)
    mon.true("arguments-unchanged", np.array_equal(A, A0), what="null")
    # the same for a site tensor and an environment
    q, D0, D1 = int(rng.randint(1, 5)), int(rng.randint(1, 6)), int(rng.randint(1, 6))
    T = c(q, D0, D1)
    ev = 10. ** rng.uniform(-3, 0, 12)
    mk = lambda n: [mm.eyemat(n, dtype=dtype), mm.simple_diag_matrix(ev[:n].astype(dtype)),
                    (lambda Q: (Q * ev[:n]).dot(Q.conj().T))(np.linalg.qr(c(n, n))[0])][rng.randint(3)]
    rs, ls = mk(D1), mk(D0)
    inf = dict(q=q, D0=D0, D1=D1, r=type(rs).__name__, l=type(ls).__name__)
    sc = bool(rng.randint(2))
    V = tm.calc_Vsh(T, rs, sanity_checks=sc)
    n = q * D1 - D0
    mon.true("null:dim", (V is None) if n <= 0 else (V is not None and V.shape == (q, D1, n)), right=True, **inf)
    if V is not None and n > 0:
        g = sum(V[s].dot(np.eye(n)).conj().T.dot(V[s]) for s in range(q))
        mon.le("null:orthonormal", np.abs(g - np.eye(n)).max(), 1e-10, right=True, **inf)
        X = sum(T[s].dot(np.asarray(rs)).dot(V[s]) for s in range(q))
        mon.le("null:tangent", np.abs(X).max(), 1e-10 * max(1, np.abs(T).max()), right=True, **inf)
    V = tm.calc_Vsh_l(T, ls, sanity_checks=sc)
    n = q * D0 - D1
    mon.true("null:dim", (V is None) if n <= 0 else (V is not None and V.shape == (q, n, D0)), left=True, **inf)
    if V is not None and n > 0:
        g = sum(V[s].dot(V[s].conj().T) for s in range(q))
        mon.le("null:orthonormal", np.abs(g - np.eye(n)).max(), 1e-10, left=True, **inf)
        X = sum(V[s].dot(np.asarray(ls)).dot(T[s]) for s in range(q))
        mon.le("null:tangent", np.abs(X).max(), 1e-10 * max(1, np.abs(T).max()), left=True, **inf)
    mon.event("null-space", 2)


if __name__ == "__main__":
    sys.exit(core.main(sys.modules["__main__"], sys.argv[1:]))
