"""P06: the TDVP tangent vector of a finite chain is the projection of H|psi>."""
import copy
import sys
import numpy as np
from mon import core, dense as dn, gen, finite, watch
import evoMPS.tdvp_gen as tg
from props.p03 import rand_mpo

ID = "P06"
RULE = ("A case is one random finite chain and one random Hamiltonian (two- or three-site terms, array / callable / "
        "with missing terms, or a matrix product operator); the tangent vector is computed in a random gauge and "
        "compared with the dense projection of (H-E)|psi> onto the tangent space; non-trivial if the projection is "
        "a proper one (tangent space smaller than the Hilbert space) and not zero.")
REQUIRED_RULES = ["tangent:projection", "tangent:eta", "energy", "energy:terms", "tangent:gauge-independent",
                  "tangent:save-memory", "tangent:eta<=variance", "tangent:mpo", "query:expect-term"]
ASSUMPTIONS = ["Hamiltonian terms are Hermitian; in mismatched gauges the states have Schmidt ratio > 1e-2"]
T = 1e-8


def cases(tier, seed):
    k = 1 if tier == "quick" else 8
    rng = np.random.RandomState(seed * 17 + 6)
    out = []
    for i in range(300 * k):
        out.append({"kind": "local", "seed": int(rng.randint(1 << 30)), "gauge": ["right", "left"][i % 2],
                    "sites": 2 + (i // 2) % 2, "style": ["array", "gaps", "callable"][i % 3]})
    for i in range(80 * k):
        out.append({"kind": "mpo", "seed": int(rng.randint(1 << 30))})
    return out


def run(case, mon):
    rng = np.random.RandomState(case["seed"])
    globals()["run_" + case["kind"]](case, rng, mon)


def mk(A, N, D, q, ham, sites, gauge, cf=None):
    s = finite.make(tg.EvoMPS_TDVP_Generic, A, N, D, q, ham, ham_sites=sites)
    s.gauge_fixing = gauge
    s.canonical_form = cf or gauge
    return s


def dense_target(s, terms, psi, qs):
    Hpsi = dn.apply_ham(terms, psi, qs)
    E = np.vdot(psi, Hpsi)
    w = Hpsi - E * psi
    Q = dn.range_projector(dn.tangent_basis(s.A))
    return Q.dot(Q.conj().T.dot(w)), E.real, np.linalg.norm(w), Q.shape[1]


def cond_tol(psi, qs):
    """Tolerance for states with tiny but nonzero Schmidt weights, whose
    tangent vectors contain inverses of those weights."""
    w = 1.0
    for k in range(1, len(qs)):
        sv = np.linalg.svd(psi.reshape(int(np.prod(qs[:k])), -1), compute_uv=False) ** 2
        w = min(w, min(x for x in sv / sv.sum() if x > 1e-15))
    return max(T, 1e-13 / w)


def judge(mon, s, B, w, var, rule="tangent:projection", T=T, **info):
    got = dn.tangent_vector(s.A, B)
    if np.isscalar(got):
        got = np.zeros_like(w)
    sc = max(var, 1e-3)
    mon.le(rule, np.linalg.norm(got - w) / sc, T, **info)
    return got


def run_local(case, rng, mon):
    sites = case["sites"]
    N, D, q, kind, A = finite.rand_state(rng, Nmin=sites, Nmax=7, maxdim=256)
    ham, terms = finite.rand_ham(rng, N, q, sites, case["style"])
    qs = q[1:]
    mon.info.update(N=N, D=D, q=q, kind=kind)
    fr = gen.full_rank(A, N)
    cf = case["gauge"]
    upd = {}
    if fr > 1e-2 and rng.rand() < 0.5:
        cf = ["right", "left"][rng.randint(2)]
        if rng.rand() < 0.4:
            upd = dict(restore_CF=False)
    s = mk(A, N, D, q, ham, sites, case["gauge"], cf)
    s.sanity_checks = bool(rng.rand() < 0.2)
    s.update(**upd)
    info = dict(cf=cf, upd=upd)
    psi = dn.dense_state(s.A)
    A0 = gen.copyA(s.A)
    w, E, var, dim = dense_target(s, terms, psi, qs)
    T = cond_tol(psi, qs)
    if T > 1e-5:
        mon.event("ill-conditioned:skipped")
        return
    info["T"] = T
    mon.nontrivial = bool(np.linalg.norm(w) > 1e-6 and dim < psi.size)
    mon.state(psi, w)
    mon.le("energy", abs(s.H_expect - E) / max(1, abs(E)), T, **info)
    for n, h in terms.items():
        e = np.vdot(psi, dn.apply_local(h, n, psi, qs))
        mon.le("energy:terms", abs(s.h_expect[n] - e), T, n=n, **info)
        # reading a term back through the public query
        f = s.expect_2s if sites == 2 else s.expect_3s
        arg = s.ham if callable(s.ham) else s.ham[n]
        if callable(arg):
            arg = (lambda m: lambda *a: s.ham(m, *a))(n)
        mon.le("query:expect-term", abs(f(arg, n) - e), T, n=n, **info)
    B = s.calc_B()
    mon.event("calc_B")
    judge(mon, s, B, w, var, **info)
    mon.le("tangent:eta", abs(s.eta - np.linalg.norm(w)) / max(var, 1e-3), T, **info)
    mon.le("tangent:eta", abs(np.sqrt(s.eta_sq.sum()) - np.linalg.norm(w)) / max(var, 1e-3), T, **info)
    mon.true("tangent:eta<=variance", abs(s.eta) <= var * (1 + 1e-8) + 1e-7, eta=abs(s.eta), var=var)
    mon.true("calc_B-reads-only", all(np.array_equal(a, b) for a, b in zip(A0[1:], s.A[1:])))
    # gauge independence: the other gauge gives the same tangent vector
    if fr > 1e-2:
        o = mk(s.A, N, list(s.D), q, ham, sites, "left" if case["gauge"] == "right" else "right", cf)
        o.update(restore_CF=False)
        Bo = o.calc_B()
        judge(mon, o, Bo, w, var, rule="tangent:gauge-independent", **info)
        mon.le("tangent:eta", abs(o.eta - np.linalg.norm(w)) / max(var, 1e-3), T, other=True)
    # one Euler step, with and without memory saving
    dt = [0.01, 0.01j, 0.003 + 0.002j][rng.randint(3)]
    for sm in (False, True):
        t = copy.deepcopy(s)
        t.take_step(dt, save_memory=sm)
        X = [None] + [a.copy() if B[i + 1] is None else a - dt * B[i + 1] for i, a in enumerate(A0[1:])]
        dv = np.linalg.norm(dn.dense_state(t.A) - dn.dense_state(X))
        mon.le("tangent:save-memory" if sm else "tangent:step", dv, T, dt=dt, **info)
        mon.le("tangent:eta-after-step", abs(t.eta - np.linalg.norm(w)) / max(var, 1e-3), T, save_memory=sm)


def run_mpo(case, rng, mon):
    N, D, q, kind, A = finite.rand_state(rng, Nmin=2, Nmax=6, maxdim=200)
    qs = q[1:]
    mon.info.update(N=N, D=D, q=q, kind=kind)
    ham, _ = finite.rand_ham(rng, N, q, 2)
    W = rand_mpo(rng, q, 1, N)
    H = dn.mpo_full(W, 1, qs)
    H = H + H.conj().T
    # Hermitian MPO W + W^dagger
    Wd = [np.conj(np.transpose(x, (0, 1, 3, 2))) for x in W]
    V = []
    for j, (x, y) in enumerate(zip(W, Wd)):
        l = 1 if j == 0 else x.shape[0] + y.shape[0]
        r = 1 if j == N - 1 else x.shape[1] + y.shape[1]
        v = np.zeros((l, r) + x.shape[2:], dtype=complex)
        if j == 0 and j == N - 1:
            v[0, 0] = x[0, 0] + y[0, 0]
        else:
            v[:x.shape[0], :x.shape[1]] += x
            v[l - y.shape[0]:, r - y.shape[1]:] += y
        V.append(v)
    assert np.abs(dn.mpo_full(V, 1, qs) - H).max() < 1e-10 * max(1, np.abs(H).max())
    s = mk(A, N, D, q, ham, 2, "right")
    s.update()
    psi = dn.dense_state(s.A)
    E = np.vdot(psi, H.dot(psi)).real
    w = H.dot(psi) - E * psi
    var = np.linalg.norm(w)
    Q = dn.range_projector(dn.tangent_basis(s.A))
    w = Q.dot(Q.conj().T.dot(w))
    mon.nontrivial = bool(np.linalg.norm(w) > 1e-6)
    T = cond_tol(psi, qs)
    if T > 1e-5:
        mon.event("ill-conditioned:skipped")
        return
    B = s.calc_B_MPO([None] + V)
    mon.event("calc_B_MPO")
    judge(mon, s, B, w, var, rule="tangent:mpo", T=T)
    mon.le("tangent:mpo", abs(s.eta - np.linalg.norm(w)) / max(var, 1e-3), T)
    mon.le("energy", abs(s.H_expect - E) / max(1, abs(E)), T)
    mon.state(psi, w)


if __name__ == "__main__":
    sys.exit(core.main(sys.modules["__main__"], sys.argv[1:]))
