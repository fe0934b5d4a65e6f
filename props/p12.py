"""P12: canonical forms and normalisation of uniform states."""
import copy
import sys
import numpy as np
from mon import core, dense as dn, uni
import evoMPS.mps_uniform as mu

ID = "P12"
RULE = ("A case is one random unit cell (block length 1-3, transfer gap > 0.05) with random norm, gauge and rank, an "
        "eigenvalue-solver mode and a canonical form; it is brought into form by the real update() / restore_*() and "
        "every environment, Schmidt spectrum and local density matrix is compared with the dense transfer operator; "
        "non-trivial if the bond dimension exceeds 1 and the form changed the tensors.")
REQUIRED_RULES = ["uniform:state-kept", "uniform:normalised", "uniform:l-fixed-point", "uniform:r-fixed-point",
                  "uniform:lr-norm", "uniform:schmidt", "uniform:form", "uniform:idempotent", "uniform:lcf",
                  "uniform:auto-truncate", "uniform:gauge-returned", "uniform:no-cf-rescale-only", "uniform:history",
                  "uniform:padded"]
ASSUMPTIONS = ["block length > 1: tensor norms within a factor ~6 of normalised (zero_tol is an absolute cut on l, r)",
               "leading transfer eigenvalue separated by a relative gap > 0.05",
               "Schmidt weights are either zero or above 1e-6",
               "without auto_truncate, the form and environments in directions of zero Schmidt weight are not judged"]
T = 1e-8


def cases(tier, seed):
    k = 1 if tier == "quick" else 8
    rng = np.random.RandomState(seed * 31 + 12)
    out = []
    for i in range(160 * k):
        out.append({"kind": "update", "seed": int(rng.randint(1 << 30)), "mode": uni.MODES[i % 3],
                    "symm": bool((i // 3) % 2), "trunc": bool((i // 6) % 2)})
    for i in range(40 * k):
        out.append({"kind": "lcf", "seed": int(rng.randint(1 << 30))})
    for i in range(40 * k):
        out.append({"kind": "padded", "seed": int(rng.randint(1 << 30))})
        out.append({"kind": "history", "seed": int(rng.randint(1 << 30)), "mode": uni.MODES[i % 3]})
    return out


def run(case, mon):
    rng = np.random.RandomState(case["seed"])
    np.random.seed(case["seed"] & 0x7fffffff)
    globals()["run_" + case["kind"]](case, rng, mon)


def judge_state(mon, U, s, rule="uniform:state-kept", **info):
    V = dn.Uniform(s.A)
    m = 2 if s.q > 2 else 3
    mon.le(rule, uni.state_distance(U, V, m), T, **info)
    mon.le("uniform:normalised", abs(V.lam - 1), T, **info)
    return V


def judge_env(mon, s, full_rank, **info):
    e = uni.env_errors(s)
    mon.le("uniform:lr-norm", e['norm'], T, **info)
    if full_rank or s.symm_gauge:
        mon.le("uniform:l-fixed-point", e['l'], T, **info)
    if full_rank:
        mon.le("uniform:r-fixed-point", e['r'], T, **info)
    elif not s.symm_gauge:
        # directions of zero weight are scaled by the inverse of rounding errors
        mon.event("rank-deficient-RCF:environment-not-judged")
        return
    else:
        # in directions of zero weight r is not determined: compare seen through l
        w = 0.
        for k in range(s.L):
            l = uni.full(s.l[(k - 1) % s.L])
            y = sum(a.dot(uni.full(s.r[k])).dot(a.conj().T) for a in s.A[k])
            w = max(w, abs(l.dot(y - uni.full(s.r[(k - 1) % s.L]))).max())
        mon.le("uniform:r-fixed-point", w, T, **info)
    mon.le("uniform:hermitian", e['herm'], T, **info)
    mon.le("uniform:positive", e['pos'], T, **info)


def judge_schmidt(mon, U, s, **info):
    for k in range(s.L):
        want = U.schmidt_sq(k)
        got = np.sort(np.real(np.asarray(s.schmidt_sq(k))))[::-1]
        n = max(len(want), len(got))
        want = np.pad(want, (0, n - len(want)))
        got = np.pad(got, (0, n - len(got)))
        mon.le("uniform:schmidt", abs(want - got).max(), T, k=k, **info)


def judge_form(mon, s, sym_form, full_rank, **info):
    for k in range(s.L):
        l, r = uni.full(s.l[k]), uni.full(s.r[k])
        mon.le("uniform:form", abs(l - np.diag(np.diag(l))).max(), T, k=k, **info)
        if sym_form:
            mon.le("uniform:form", abs(l - r).max(), T, k=k, **info)
        elif full_rank:
            mon.le("uniform:form", abs(r - np.eye(s.D)).max(), T, k=k, **info)


def run_update(case, rng, mon):
    As, U, inf = uni.draw(rng, mon, Dmax=8)
    D0 = As[0].shape[1]
    symm, mode = case["symm"], case["mode"]
    s = uni.setmode(uni.make(mu.EvoMPS_MPS_Uniform, As, symm_gauge=symm), mode)
    if rng.rand() < 0.2:
        s.sanity_checks = True
    info = dict(mode=mode, symm=symm, **inf)
    rank = max(inf["rank"])
    fr = min(inf["rank"]) == D0
    trunc = case["trunc"]
    mon.state(*As)
    if not trunc:
        t = copy.deepcopy(s)
        t.update(restore_CF=False)
        ref = [a / np.linalg.norm(a) for a in As]
        got = [a / np.linalg.norm(a) for a in t.A]
        mon.le("uniform:no-cf-rescale-only",
               max(min(abs(a - b).max(), abs(abs(np.vdot(a, b)) - 1)) for a, b in zip(ref, got)), T, **info)
        judge_state(mon, U, t, **info)
        judge_env(mon, t, True, **info)
        judge_schmidt(mon, U, t, **info)
    s.update(auto_truncate=trunc)
    mon.event("update:%s:%s" % (mode, "SCF" if symm else "RCF"))
    mon.nontrivial = D0 > 1 and max(abs(a / np.linalg.norm(a) - b / np.linalg.norm(b)).max()
                                    for a, b in zip(As, s.A) if a.shape == b.shape) > 1e-6 if s.D == D0 else True
    if trunc:
        mon.true("uniform:auto-truncate", s.D == rank, got=s.D, want=rank, **inf)
        full = min(inf["rank"]) == s.D
    else:
        mon.true("uniform:bond-dimension-kept", s.D == D0, got=s.D)
        full = fr
    judge_state(mon, U, s, **info)
    judge_env(mon, s, full, **info)
    judge_schmidt(mon, U, s, **info)
    judge_form(mon, s, symm, full, **info)
    if not full:
        return
    # the form is a fixed point of the operation
    t = copy.deepcopy(s)
    t.update()
    judge_state(mon, U, t, rule="uniform:idempotent", **info)
    judge_form(mon, t, symm, full, again=True, **info)
    mon.le("uniform:idempotent", max(abs(abs(a) - abs(b)).max() for a, b in
                                     zip(map(uni.full, s.l), map(uni.full, t.l))), T, **info)
    # the other forms describe the same state
    t = copy.deepcopy(s)
    g = None
    ks = None
    if rng.rand() < 0.5:
        A0 = [a.copy() for a in t.A]
        G, Gi = t.restore_RCF(ret_g=True)
        for k in range(t.L):
            mon.le("uniform:gauge-returned", abs(G[k].dot(Gi[k]) - np.eye(t.D)).max(), T, **info)
            want = np.einsum('ab,sbc,cd->sad', Gi[k - 1], A0[k], G[k])
            mon.le("uniform:gauge-returned", abs(want - t.A[k]).max(), T, k=k, **info)
        judge_form(mon, t, False, True, switched=True, **info)
    elif rng.rand() < 0.5:
        t.restore_RCF(diag_l=False)
        for k in range(t.L):
            mon.le("uniform:form", abs(uni.full(t.r[k]) - np.eye(t.D)).max(), T, k=k, diag=False, **info)
    else:
        t.restore_SCF()
        judge_form(mon, t, True, True, switched=True, **info)
    judge_env(mon, t, True, switched=True, **info)
    judge_state(mon, U, t, switched=True, **info)


def run_lcf(case, rng, mon):
    As, U, inf = uni.draw(rng, mon, full_rank=1e-6)
    s = uni.make(mu.EvoMPS_MPS_Uniform, As, symm_gauge=bool(rng.randint(2)))
    pre = bool(rng.randint(2))
    s.update(restore_CF=pre)
    D = s.D
    mon.state(*As)
    mon.nontrivial = D > 1
    diag = bool(rng.rand() < 0.7)
    A0 = [a.copy() for a in s.A]
    G, Gi = s.restore_LCF(diag_r=diag, ret_g=True)
    mon.event("restore_LCF")
    for k in range(s.L):
        l, r = uni.full(s.l[k]), uni.full(s.r[k])
        mon.le("uniform:lcf", abs(l - np.eye(D)).max(), T, k=k, **inf)
        if diag:
            mon.le("uniform:lcf", abs(r - np.diag(np.diag(r))).max(), T, k=k, **inf)
        mon.le("uniform:gauge-returned", abs(G[k].dot(Gi[k]) - np.eye(D)).max(), T, **inf)
        want = np.einsum('ab,sbc,cd->sad', Gi[k - 1], A0[k], G[k])
        mon.le("uniform:gauge-returned", abs(want - s.A[k]).max(), 1e-7, k=k, lcf=True, **inf)
    judge_env(mon, s, True, **inf)
    judge_state(mon, U, s, **inf)
    judge_schmidt(mon, U, s, **inf)


def run_padded(case, rng, mon):
    """Unused bond dimensions (exactly zero entries) stay unused in both canonical forms."""
    As, U, inf = uni.draw(rng, mon, Lmax=2, Dmax=4, full_rank=1e-6)
    D, x, y = inf["D"], int(rng.randint(1, 3)), int(rng.randint(2))
    P = [np.zeros((inf["q"], D + x, D + x), complex) for _ in As]
    sl = slice(x, None) if y else slice(0, D)
    for p, a in zip(P, As):
        p[:, sl, sl] = a
    s = uni.make(mu.EvoMPS_MPS_Uniform, P, symm_gauge=False)
    s.update(restore_CF=False)
    mon.state(*P)
    mon.nontrivial = D > 1
    left, diag = bool(rng.randint(2)), bool(rng.rand() < 0.7)
    info = dict(inf, left=left, diag=diag, x=x, y=y)
    for X in (s.l, s.r):
        for x_ in X:
            ev = np.linalg.eigvalsh(uni.full(x_))
            if ((abs(ev) < 1e-12) & (ev != 0)).any():
                # rounding errors in place of zeros: directions of zero weight are not judged
                return mon.event("padded:rounding-errors")
    if left:
        s.restore_LCF(diag_r=diag)
    else:
        s.restore_RCF(diag_l=diag)
    mon.event("padded:" + ("LCF" if left else "RCF"))
    for k in range(s.L):
        l, r = uni.full(s.l[k]), uni.full(s.r[k])
        one, other = (l, r) if left else (r, l)
        mon.le("uniform:padded", abs(one.dot(one) - one).max(), T, what="projector", **info)
        mon.le("uniform:padded", abs(np.trace(one) - D), T, what="rank", **info)
        if diag:
            mon.le("uniform:padded", abs(other - np.diag(np.diag(other))).max(), T, what="diagonal", **info)
    e = uni.env_errors(s)
    mon.le("uniform:padded", max(e["l"], e["r"], e["norm"]), T, what="fixed points", **info)
    judge_state(mon, U, s, rule="uniform:padded", **info)
    judge_schmidt(mon, U, s, **info)


def run_history(case, rng, mon):
    """The result of update() depends on the tensors, not on the history
    (earlier environments are only starting vectors)."""
    s = None
    for i in range(rng.randint(2, 5)):
        style = rng.randint(3)
        if s is None or style == 0:
            As, U, inf = uni.draw(rng, mon, Lmax=2, Dmax=6, full_rank=1e-6) if s is None else (None, None, None)
            if s is None:
                s = uni.setmode(uni.make(mu.EvoMPS_MPS_Uniform, As, symm_gauge=bool(rng.randint(2))), case["mode"])
            else:
                s.randomize(do_update=False)
        elif style == 1:
            for k in range(s.L):
                s.A[k] = s.A[k] + 10. ** rng.uniform(-3, 0) * uni.cplx(rng, *s.A[k].shape) / np.sqrt(s.q * s.D)
        else:
            s.add_noise(10. ** rng.uniform(-2, 1), do_update=False)
        U = dn.Uniform(s.A)
        if U.gap < 0.05 or min(U.schmidt_sq(k).min() for k in range(s.L)) < 1e-6:
            mon.event("history:step-skipped")
            continue
        s.update()
        mon.event("history:update")
        mon.nontrivial = s.D > 1
        mon.state(*s.A)
        info = dict(mode=case["mode"], step=i)
        judge_state(mon, U, s, rule="uniform:history", **info)
        judge_env(mon, s, True, **info)
        judge_schmidt(mon, U, s, **info)
        judge_form(mon, s, s.symm_gauge, True, **info)


if __name__ == "__main__":
    sys.exit(core.main(sys.modules["__main__"], sys.argv[1:]))
