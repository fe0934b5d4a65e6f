"""P11: the Krylov matrix-exponential solver."""
import sys
import numpy as np
import scipy.linalg as la
import scipy.sparse.linalg as las
from mon import core, gen
from evoMPS.sexpmv import gexpmv

ID = "P11"
RULE = ("A case is one random linear operator (Hermitian, anti-Hermitian, nilpotent, real, general, with invariant "
        "subspaces), vector, time and solver setting; non-trivial if more than one Krylov step or a breakdown was seen "
        "or the vector moved by more than 10%.")
REQUIRED_RULES = ["accuracy", "converges", "step-limit", "arguments-unchanged", "krylov-size", "error-estimate",
                  "zero-time", "unitary", "breakdown-exact"]
ASSUMPTIONS = ["floating point dtypes, non-zero start vector, positive norm estimate; runs reported as not converged "
               "are not judged for accuracy"]


def cases(tier, seed):
    k = 1 if tier == "quick" else 12
    rng = np.random.RandomState(seed * 31 + 11)
    return [{"kind": "exp", "seed": int(rng.randint(1 << 30)), "cost": 1} for i in range(700 * k)]


class Op(object):
    """Operator with only the documented interface; counts applications."""

    def __init__(self, M):
        self.M = M
        self.shape = M.shape
        self.dtype = M.dtype
        self.calls = 0

    def matvec(self, x):
        self.calls += 1
        return self.M.dot(x)


def run(case, mon):
    rng = np.random.RandomState(case["seed"])
    n = rng.randint(2, 45)
    m = min(rng.randint(1, 30), n - 1) if rng.rand() < 0.7 else None
    kind = ["herm", "aherm", "general", "nilpotent", "real", "block", "diag", "realsym", "decay", "decay"][rng.randint(10)]
    if kind == "decay":
        n = rng.randint(8, 45)
        m = min(rng.randint(3, 14), n - 1)
    M = gen.cplx(rng, n, n)
    v = gen.cplx(rng, n)
    if kind == "herm":
        M = M + M.conj().T
    elif kind == "aherm":
        M = 1j * (M + M.conj().T)
    elif kind == "nilpotent":
        M = np.triu(M, 1)
    elif kind == "real":
        M = M.real
    elif kind == "realsym":
        M = M.real + M.real.T
    elif kind == "block":
        d = rng.randint(1, n)
        M[d:, :d] = 0
        v[d:] = 0
    elif kind == "decay":
        # the vector ends up in a small invariant subspace after some steps
        d = np.concatenate([-0.1 * rng.rand(1 + rng.randint(2)), -2 - 4 * rng.rand(n)])[:n]
        Q = np.linalg.qr(M)[0] if rng.rand() < 0.7 else np.eye(n)
        M = (Q * (d + 1j * rng.randint(2) * rng.uniform(-1, 1, n))).dot(Q.conj().T)
    elif kind == "diag":
        M = np.diag(np.repeat(gen.cplx(rng, 3), n)[:n] if n >= 3 else gen.cplx(rng, n))
    if rng.rand() < 0.3:
        v = v.real if kind in ("real", "realsym") or rng.rand() < 0.3 else v
    if rng.rand() < 0.4:
        v = v / np.linalg.norm(v)
    M = np.ascontiguousarray(M) / max(1e-8, np.linalg.norm(M, 2))
    sc = 10. ** rng.uniform(-2, 1.5)
    M = M * sc
    t = rng.uniform(0.01, 8) / sc * [1, -1][rng.randint(2)]
    if kind == "decay":
        t = 10. ** rng.uniform(1, 2.3) / sc
    tol = [0.0, 10. ** rng.uniform(-14, -3), 10. ** rng.uniform(-12, -5)][rng.randint(3)]
    an = max(np.linalg.norm(M, [np.inf, 1, 2][rng.randint(3)]), 1e-3) * [1, 1, 5, 0.2][rng.randint(4)]
    mx = [500, 500, 500, 3, 30][rng.randint(5)]
    op = [M, Op(M), las.aslinearoperator(M)][rng.randint(3)]
    M0, v0 = M.copy(), v.copy()
    kw = {}
    if rng.rand() < 0.2:
        kw["w"] = np.zeros(n, dtype=complex)
    mon.info.update(n=n, m=m, kind=kind, ts=t * sc, tol=tol, mx=mx)
    w, conv, nstep, brk, mb, err = gexpmv(op, v, t, an, m=m, tol=tol, mxstep=mx, **kw)
    mon.event("krylov-step", nstep)
    mon.event("breakdown" if brk else "no-breakdown")
    mon.event("converged" if conv else "not-converged")
    mon.true("arguments-unchanged", np.array_equal(M, M0) and np.array_equal(v, v0))
    mm = m or min(20, n - 1)
    mon.true("krylov-size", 0 < mb <= mm, mb=mb, m=mm)
    mon.true("step-limit", nstep <= mx, nstep=nstep, mx=mx)
    if isinstance(op, Op):
        mon.true("step-limit", op.calls <= (mm + 1) * nstep, calls=op.calls, nstep=nstep, m=mm)
    mon.true("error-estimate", 0 <= err[0] <= err[1] + 1e-300, err=list(err))
    ex = la.expm(t * M).dot(v)
    growth = max(np.linalg.norm(la.expm(x * t * M), 2) for x in np.linspace(0, 1, 6))
    e = np.linalg.norm(w - ex)
    nv = np.linalg.norm(v)
    floor = 1e-12 * growth * nv * max(1, abs(t) * sc)
    mon.nontrivial = bool(brk or nstep > 1 or np.linalg.norm(ex - v) > 0.1 * nv)
    mon.state([n, mm, nstep, mb, float(brk)], w[:2])
    if conv:
        mon.le("accuracy", e, 20 * 1.2 * max(tol, 1.5e-8 if tol == 0 else 0) * abs(t) * growth * max(1, an) + floor, t=t)
        if kind == "aherm":
            mon.le("unitary", np.linalg.norm(w) / nv - 1, 30 * max(tol, 1.5e-8 if not tol else 0) * abs(t) * max(1, an) / nv + 1e-12 * max(1, abs(t) * sc))
        if brk and nstep == 1 and tol and tol < 1e-9:
            mon.le("breakdown-exact", e, 1e-6 * max(1, abs(t) * an) * growth * nv)
    if mx == 500 and (tol == 0 or tol >= 1e-12) and abs(t) * sc <= 20 and mm >= 12:
        mon.true("converges", bool(conv), nstep=nstep)
    if kind == "block" and mx == 500 and 3 < mm and tol:
        # the whole orbit lives in the invariant block
        mon.le("invariant-subspace", np.linalg.norm(w[np.abs(v0) == 0]), 1e-12 * growth * nv)
    z = gexpmv(M, v, 0.0, an, m=m, tol=tol)[0]
    mon.true("zero-time", np.array_equal(z, v))


if __name__ == "__main__":
    sys.exit(core.main(sys.modules["__main__"], sys.argv[1:]))
