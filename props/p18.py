"""P18: transfer maps, contractions and transfer-operator (pseudo-)inverses against their definitions."""
import sys
import numpy as np
from mon import core, gen, contract
import evoMPS.core_common as cc
import evoMPS.tdvp_common as tm
import evoMPS.matmul as mm
import evoMPS.mps_uniform_pinv as pv

ID = "P18"
RULE = ("A case draws tensors of unrelated sizes, memory layouts and dtypes and calls every contraction on them (or solves "
        "one transfer-operator equation); non-trivial if the tensors are not all 1x1.")
REQUIRED_RULES = ["AA", "noop", "op_1s", "op_MPO", "noop_multi", "op_2s", "C_func", "op_2s_pre", "op_3s_pre", "C_mat", "tp",
                  "K", "MPO_local", "adjoint", "arguments-unchanged", "pinv:solves", "pinv:dense", "pinv:projected",
                  "pinv:in-place"]
ASSUMPTIONS = ["operands of one contraction share their dtype; transfer-operator equations are drawn with a spectrum that keeps "
               "the solution unique (condition number below 1e6), and their residual is judged at ten times the tolerance"]


def cases(tier, seed):
    k = 1 if tier == "quick" else 15
    rng = np.random.RandomState(seed * 37 + 18)
    return [{"kind": kind, "seed": int(rng.randint(1 << 30)), "cost": 1}
            for kind, n in (("core", 120), ("common", 120), ("pinv", 160)) for _ in range(n * k)]


def run(case, mon):
    rng = np.random.RandomState(case["seed"])
    mon.nontrivial = True
    if case["kind"] == "pinv":
        return run_pinv(rng, mon)
    dt = [complex, complex, float][rng.randint(3)]
    contract.check(cc if case["kind"] == "core" else tm, rng, mon, dtype=dt,
                   names=contract.CORE if case["kind"] == "core" else contract.COMMON)


def run_pinv(rng, mon):
    D = int(rng.randint(1, 8))
    q = int(rng.randint(1, 5))
    L = int(rng.randint(1, 4))
    same = rng.rand() < 0.5
    p = 0. if rng.rand() < 0.3 else float(rng.uniform(-np.pi, np.pi))
    left = bool(rng.randint(2))
    A1 = [gen.cplx(rng, q, D, D) for _ in range(L)]
    A2 = [a.copy() for a in A1] if same else [gen.cplx(rng, q, D, D) for _ in range(L)]

    def dense(A1, A2):
        T = np.eye(D * D)
        for a, b in zip(A1, A2):
            T = T.dot(sum(np.kron(a[s], b[s].conj()) for s in range(q)))
        return T
    T = dense(A1, A2)
    ev, V = np.linalg.eig(T)
    j = np.argmax(abs(ev))
    sc = abs(ev[j])
    if sc < 1e-8:
        return mon.unsure("nilpotent")
    # rescale: |leading eigenvalue| one (pseudo) or below it
    pseudo = rng.rand() < 0.6
    tgt = 1. if pseudo else rng.uniform(0.3, 0.97)
    f = (tgt / sc) ** (1. / (2 * L))
    A1 = [a * f for a in A1]
    A2 = [a * f for a in A2]
    if pseudo:
        A1[0] = A1[0] * (sc / ev[j])  # unit leading eigenvalue, also for two different states
    T = dense(A1, A2)
    N = D * D
    lL = rL = None
    mon.event("pseudo" if pseudo else "inverse")
    if pseudo:
        w, R = np.linalg.eig(T)
        k = np.argmax(abs(w))
        r = R[:, k]
        wl, LL = np.linalg.eig(T.conj().T)
        l = LL[:, np.argmin(abs(wl - w[k].conj()))]
        if abs(np.vdot(r, l)) < 1e-3:
            return mon.unsure("defective")
        l = l / np.vdot(r, l)
        lL, rL = l.reshape(D, D), r.reshape(D, D)
        Q = T - np.outer(r, l.conj())
    else:
        Q = T
    M = np.eye(N) - np.exp(1j * p) * Q
    if left:
        M = M.conj().T
    cond = np.linalg.cond(M)
    if cond > 1e6:
        return mon.unsure("ill-conditioned")
    x = gen.cplx(rng, D, D)
    if rng.rand() < 0.3 and pseudo and D > 1:
        # an argument in the complement of the leading eigenvector stays there
        x = x - (lL * np.vdot(rL, x) if left else rL * np.vdot(lL, x))
        proj = True
    else:
        proj = False
    keep = [x.copy()] + [a.copy() for a in A1 + A2]
    tol = 10. ** rng.uniform(-10, -6)
    kw = dict(p=p, left=left, pseudo=pseudo, tol=tol, maxiter=4000)
    out = None
    if rng.rand() < 0.5:
        out = gen.cplx(rng, D, D)
        kw["out"] = out
    from scipy.sparse import linalg as las
    solver = [None, las.lgmres, las.gmres][rng.randint(3)]
    if solver is not None:
        kw["solver"] = solver
    mon.state(T)
    with core.Capture("evoMPS.mps_uniform_pinv") as cap:
        y = pv.pinv_1mE(x, A1, A2, lL, rL, **kw)
    info = dict(D=D, q=q, L=L, p=p, left=left, pseudo=pseudo, stol=tol, solver=getattr(solver, "__name__", "bicgstab"), cnd=cond)
    if cap.records:
        return mon.unsure("reported-not-converged")
    res = np.linalg.norm(M.dot(y.ravel()) - x.ravel()) / np.linalg.norm(x)
    # res <= tol is the contract; the pseudo-inverse definition follows from it
    mon.le("pinv:solves", max(0., res - 10 * tol), 1e-12, **info)
    ref = np.linalg.solve(M, x.ravel())
    mon.le("pinv:dense", np.linalg.norm(y.ravel() - ref), 10 * tol * np.linalg.norm(x) * np.linalg.norm(np.linalg.inv(M), 2) + 1e-11,
           **info)
    if proj:
        s = abs(np.vdot(rL, y) if left else np.vdot(lL, y))
        mon.le("pinv:projected", s, 100 * tol * cond * np.linalg.norm(x) * max(np.linalg.norm(lL), np.linalg.norm(rL)) + 1e-10, **info)
    if out is not None:
        mon.true("pinv:in-place", y is out, **info)
    mon.true("arguments-unchanged", all(np.array_equal(a, b) for a, b in zip(keep, [x] + A1 + A2)), **info)
    if D <= 5 and pseudo or (not pseudo and D <= 5 and rng.rand() < 0.5):
        l_, r_ = (lL, rL) if pseudo else (np.eye(D), np.eye(D))
        B = pv.pinv_1mE_brute(A1, A2, l_, r_, p=p, pseudo=pseudo)
        Mr = M.conj().T if left else M
        mon.le("pinv:dense", abs(B.dot(Mr) - np.eye(N)).max(), 1e-9 * cond, brute=True, **info)
        B = pv.pinv_1mE_brute_LOP(A1, A2, l_, r_, p=p, pseudo=pseudo, left=left)
        mon.le("pinv:dense", abs(B.dot(Mr) - np.eye(N)).max(), 1e-9 * cond, lop=True, **info)


if __name__ == "__main__":
    sys.exit(core.main(sys.modules["__main__"], sys.argv[1:]))
