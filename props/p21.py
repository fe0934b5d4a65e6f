"""P21: dissipative evolution: one stochastic step, its noise, and ensemble averages."""
import copy
import sys
import numpy as np
import scipy.linalg as sla
from mon import core, dense as dn, gen, finite
import evoMPS.tdvp_gen_diss as td

ID = "P21"
RULE = ("A case is a random finite chain, Hamiltonian (2 or 3 sites, any form) and list of Lindblad operators; a dissipative "
        "step is decomposed into its deterministic part and its noise in the dense tangent space, or repeated steps are "
        "averaged and compared with the law of the noise or with the exact Lindblad evolution; non-trivial if the tangent "
        "projections of the operators are independent.")
REQUIRED_RULES = ["step:drift", "step:mean", "step:restores-ham", "noise:mean", "noise:variance", "noise:circular",
                  "noise:independent", "ensemble:lindblad", "step:expansion", "op:norm-projected", "step:norm", "step:expect"]
ASSUMPTIONS = ["Lindblad operators have the range of the Hamiltonian terms, as documented; statistical rules use 6 to 7 standard "
               "deviations and seeded noise"]


def cases(tier, seed):
    k = 1 if tier == "quick" else 8
    rng = np.random.RandomState(seed * 47 + 21)
    return [{"kind": kind, "seed": int(rng.randint(1 << 30)), "cost": c}
            for kind, n, c in (("step", 120, 1), ("noise", 10, 6), ("ensemble", 2, 30), ("expand", 24, 1), ("op", 30, 1))
            for _ in range(n * k)]


def run(case, mon):
    rng = np.random.RandomState(case["seed"])
    np.random.seed(case["seed"] % (1 << 31))
    globals()["run_" + case["kind"]](rng, mon)


def build(rng, mon, N=None, D=None, q=None, sites=None, nL=None, big=False):
    sites = sites or 2 + rng.randint(2)
    if N is None:
        N, D, q, kind, A = finite.rand_state(rng, Nmin=sites, Nmax=6, maxdim=128)
    else:
        A = None
    style = ["array", "gaps", "callable"][rng.randint(3)]
    ham, terms = finite.rand_ham(rng, N, q, sites, style)
    linds = []
    for _ in range(rng.randint(1, 4) if nL is None else nL):
        n = rng.randint(1, N - sites + 2)
        dims = [q[n + i] for i in range(sites)]
        op = dn.rand_op(rng, dims, herm=False, real=bool(rng.randint(2)))
        if rng.randint(3) == 0:
            # acts on the first site only
            a = gen.cplx(rng, dims[0], dims[0])
            op = np.kron(a, np.eye(int(np.prod(dims[1:])))).reshape(dims * 2)
        linds.append((n, op / np.linalg.norm(op.reshape(int(np.prod(dims)), -1), 2) * rng.uniform(0.3, 1.5)))
    s = td.EvoMPS_TDVP_Generic_Dissipative(N, D, q, ham, linds, ham_sites=sites)
    if A is not None:
        s.set_state_from_tensors(A, do_update=False)
    else:
        s.randomize(do_update=False)
    s.gauge_fixing = s.canonical_form = ["right", "left"][rng.randint(2)]
    s.sanity_checks = bool(rng.rand() < 0.2)
    s.update()
    mon.event("ham:" + style)
    mon.event("linds", len(linds))
    mon.info.update(N=N, D=list(map(int, s.D)), q=list(map(int, q)), sites=sites, style=style, nL=len(linds))
    return s, terms, linds


def parts(s, terms, linds):
    """Dense state, drift and noise directions (before projection)."""
    qs = list(s.q[1:])
    psi = dn.dense_state(s.A)
    d = -1j * dn.apply_ham(terms, psi, qs)
    dirs = []
    for n, L in linds:
        m = L.ndim // 2
        k = int(np.prod(L.shape[:m]))
        Lp = dn.apply_local(L, n, psi, qs)
        LdL = L.reshape(k, k).conj().T.dot(L.reshape(k, k)).reshape(L.shape)
        d = d - 0.5 * dn.apply_local(LdL, n, psi, qs) + np.conj(np.vdot(psi, Lp)) * Lp
        dirs.append(Lp)
    return qs, psi, d, dirs


def projector(s, psi):
    Q = dn.range_projector(dn.tangent_basis(s.A))

    def P(v):
        v = v - psi * np.vdot(psi, v)
        return Q.dot(Q.conj().T.dot(v))
    return P


def weights(psi, qs):
    """Smallest Schmidt weight that is not a rounding error."""
    w = 1.0
    for k in range(1, len(qs)):
        sv = np.linalg.svd(psi.reshape(int(np.prod(qs[:k])), -1), compute_uv=False) ** 2
        w = min(w, min(x for x in sv / sv.sum() if x > 1e-26))
    return w


def solve(delta, drift, dirs):
    """Noise coefficients, and what is left of the step."""
    M = np.array(dirs).T
    u, sv, vh = np.linalg.svd(M, full_matrices=False)
    keep = sv > 1e-7 * max(sv.max(), 1e-300)
    W = vh[keep].conj().T.dot(u[:, keep].conj().T.dot(delta - drift) / sv[keep])
    return W, np.linalg.norm(delta - drift - M.dot(W)), bool(keep.all()) and sv.max() > 1e-6


def run_step(rng, mon):
    s, terms, linds = build(rng, mon)
    for _ in range(rng.randint(3)):
        # earlier steps leave nothing behind
        s.take_step_dissipative(10 ** rng.uniform(-6, -2))
        s.update()
    qs, psi, d, dirs = parts(s, terms, linds)
    T = max(1e-8, 1e-13 / weights(psi, qs))
    if T > 1e-5:
        return mon.event("ill-conditioned:skipped")
    P = projector(s, psi)
    # the step is linear in dt and sqrt(dt), so large ones separate drift from noise
    dt = 10 ** rng.uniform(-6, 3)
    A0 = gen.copyA(s.A)
    ham0 = s.ham
    ref = copy.deepcopy((terms, linds))
    opts = [{}, {"save_memory": True}, {"calc_Y_2s": True}][rng.randint(3)]
    s.take_step_dissipative(dt, **opts)
    mon.event("step")
    dA = [None] + [s.A[n] - A0[n] for n in range(1, s.N + 1)]
    delta = dn.tangent_vector(A0, dA)
    delta = np.zeros_like(psi) if np.isscalar(delta) else delta
    Pd = [P(v) for v in dirs]
    W, rest, indep = solve(delta, dt * P(d), Pd)
    sc = dt * np.linalg.norm(d) + sum(np.sqrt(dt) * np.linalg.norm(v) for v in dirs)
    mon.nontrivial = indep
    mon.state(psi, W)
    mon.le("step:drift", rest / sc, T, dt=dt, opts=str(opts), cf=s.canonical_form)
    # a single draw stays in the plausible range: exp(-50) otherwise
    if indep and np.linalg.cond(np.array(Pd).T) * T * np.sqrt(dt) < 0.1:
        mon.le("noise:size", max(abs(W)) / np.sqrt(dt), 7.1, dt=dt, cond_=float(np.linalg.cond(np.array(Pd).T)))
        mon.true("noise:present", min(abs(W)) > 1e-9 * np.sqrt(dt), W=str(abs(W)))
    mon.true("step:restores-ham", s.ham is ham0, what="identity")
    for n, h in ref[0].items():
        now = s.ham[n] if not callable(s.ham) else terms[n]
        mon.true("step:restores-ham", np.array_equal(now, h), what="term")
    mon.true("step:restores-ham", all(a[0] == b[0] and np.array_equal(a[1], b[1]) for a, b in zip(ref[1], s.linds)),
             what="linds")
    # the tangent step does not change the norm to first order; update() normalises
    ov = np.vdot(psi, delta)
    mon.le("step:norm", abs(ov) / sc, T)
    psi1 = dn.dense_state(s.A)
    s.update()
    psi2 = dn.dense_state(s.A)
    mon.le("step:norm", abs(np.linalg.norm(psi2) - 1), 1e-10, what="update")
    mon.le("step:norm", dn.ray_distance(psi2, psi1), 1e-7, what="update-state")
    # expectation values of the stepped state are readable, also those of Hamiltonian terms and Lindblad operators
    f = s.expect_2s if s.ham_sites == 2 else s.expect_3s
    for n, o in linds + (list(terms.items()) if not callable(s.ham) else []):
        o = o if n not in terms or o is not terms[n] else s.ham[n]
        mon.le("step:expect", abs(f(o, n) - np.vdot(psi2, dn.apply_local(o, n, psi2, qs))), 1e-9)
    op = dn.rand_op(rng, [qs[0]], herm=True)
    mon.le("step:norm", abs(s.expect_1s(op, 1) - np.vdot(psi2, dn.apply_local(op, 1, psi2, qs))), 1e-9, what="expect")


def many(s0, dt, n):
    """n independent steps from the same state: tangent changes."""
    out = []
    A0 = gen.copyA(s0.A)
    for _ in range(n):
        s = copy.deepcopy(s0)
        s.take_step_dissipative(dt)
        out.append([None] + [s.A[k] - A0[k] for k in range(1, s.N + 1)])
    return A0, out


def run_noise(rng, mon):
    q2 = 2 + rng.randint(2)
    nL = rng.randint(1, 4)
    dt = 10 ** rng.uniform(-6, 2)
    for _ in range(50):
        s, terms, linds = build(rng, mon, 3, [1, 2, 2, 1], [0, 2, q2, 2], sites=2, nL=nL)
        qs, psi, d, dirs = parts(s, terms, linds)
        P = projector(s, psi)
        Pd = [P(v) for v in dirs]
        if np.linalg.cond(np.array(Pd).T) < 1e4 and weights(psi, qs) > 1e-6:
            break
    else:
        return mon.event("ill-conditioned:skipped")
    n = 300
    A0, dAs = many(s, dt, n)
    Ws = []
    for dA in dAs:
        W, rest, _ = solve(dn.tangent_vector(A0, dA), dt * P(d), Pd)
        Ws.append(W)
    Ws = np.array(Ws) / np.sqrt(dt)
    mon.nontrivial = True
    mon.state(psi, Ws)
    mon.event("noise-sample", Ws.size)
    r = np.sqrt(n)
    k = Ws.shape[1]
    for j in range(k):
        w = Ws[:, j]
        mon.le("noise:mean", abs(w.mean()) * r, 6., dt=dt)
        # |w|^2 is exponential with mean and standard deviation one
        mon.le("noise:variance", abs((abs(w) ** 2).mean() - 1) * r, 7., dt=dt)
        mon.le("noise:circular", abs((w ** 2).mean()) * r, 7.)
        # Gaussian: E|w|^4 = 2, with variance 20
        mon.le("noise:gaussian", max(0, abs((abs(w) ** 4).mean() - 2) * r / np.sqrt(20.)), 9.)
        mon.le("noise:independent", abs((w[1:] * w[:-1].conj()).mean()) * r, 7., what="successive steps")
        for i in range(j):
            mon.le("noise:independent", abs((w * Ws[:, i].conj()).mean()) * r, 7., what="operators")
            mon.le("noise:independent", abs((w * Ws[:, i]).mean()) * r, 7., what="operators")
    mean = np.mean([dn.tangent_vector(A0, dA) for dA in dAs], axis=0)
    nz = np.sqrt(sum(np.linalg.norm(v) ** 2 for v in Pd) * dt / n)
    mon.le("step:mean", np.linalg.norm(mean - dt * P(d)) / nz, 6., dt=dt)


def run_ensemble(rng, mon):
    N = 2 + rng.randint(2)
    q = [0] + [2] * N
    D = [1] + [2] * (N - 1) + [1]
    qs = q[1:]
    for _ in range(50):
        s0, terms, linds = build(rng, mon, N, D, q, sites=2, nL=2)
        psi0 = dn.dense_state(s0.A)
        if weights(psi0, qs) > 1e-3:
            break
    else:
        return mon.event("ill-conditioned:skipped")
    n, steps, t = 180, 10, 0.12
    dt = t / steps
    dim = psi0.size
    rho = np.zeros((dim, dim), complex)
    sq = np.zeros((dim, dim))
    for _ in range(n):
        s = copy.deepcopy(s0)
        for k in range(steps):
            s.take_step_dissipative(dt)
            s.update()
        v = dn.dense_state(s.A)
        r = np.outer(v, v.conj())
        rho += r
        sq += abs(r) ** 2
        mon.event("trajectory")
    rho /= n
    sd = np.sqrt(max((sq / n - abs(rho) ** 2).sum(), 0) / n)
    Hd = np.array([dn.apply_ham(terms, e, qs) for e in np.eye(dim)]).T
    Ls = [np.array([dn.apply_local(L, k, e, qs) for e in np.eye(dim)]).T for k, L in linds]
    I = np.eye(dim)
    G = -1j * (np.kron(Hd, I) - np.kron(I, Hd.T))
    for L in Ls:
        LL = L.conj().T.dot(L)
        G = G + np.kron(L, L.conj()) - 0.5 * np.kron(LL, I) - 0.5 * np.kron(I, LL.T)
    r0 = np.outer(psi0, psi0.conj())
    want = sla.expm(t * G).dot(r0.reshape(-1)).reshape(dim, dim)
    # first order scheme: the error of the mean over the whole time is below t dt |G|^2
    bias = t * dt * np.linalg.norm(G, 2) ** 2
    mon.nontrivial = np.linalg.norm(want - r0) > 0.02
    mon.state(psi0, rho)
    mon.le("ensemble:lindblad", max(0, np.linalg.norm(rho - want) - bias) / sd, 5., N=N, bias=bias, sd=sd,
           move=np.linalg.norm(want - r0))


def run_expand(rng, mon):
    """Two sites: a step with dynamic expansion captures everything."""
    q = [0, 2 + rng.randint(2), 2 + rng.randint(2)]
    s, terms, linds = build(rng, mon, 2, [1, 1, 1], q, sites=2, nL=1 + rng.randint(2))
    qs, psi, d, dirs = parts(s, terms, linds)
    P = projector(s, psi)
    dt = 10 ** rng.uniform(-6, -2)
    A0 = gen.copyA(s.A)
    s.take_step_dissipative(dt, dynexp=True, **[{}, dict(D_max=16, sv_tol=1e-14)][rng.randint(2)])
    mon.event("expanded" if s.D[1] > 1 else "not-expanded")
    Ab = [None, s.A[1][:, :1, :1], s.A[2][:, :1, :1]]
    delta = dn.tangent_vector(A0, [None] + [Ab[n] - A0[n] for n in (1, 2)])
    W, rest, indep = solve(delta, dt * P(d), [P(v) for v in dirs])
    sc = dt * np.linalg.norm(d) + np.sqrt(dt) * sum(np.linalg.norm(v) for v in dirs)
    mon.le("step:drift", rest / sc, 1e-8, what="expand")
    if not indep:
        return
    v = dt * d + sum(w * x for w, x in zip(W, dirs))
    v = v - psi * np.vdot(psi, v)
    two = v - P(v)
    got = dn.dense_state(s.A) - dn.dense_state(Ab)
    mon.nontrivial = bool(np.linalg.norm(two) > 1e-9)
    mon.state(psi, W)
    mon.le("step:expansion", np.linalg.norm(got - two) / sc, 1e-7, dt=dt)
    mon.le("step:expansion", max(0, max(s.D) - 16), 0, what="limit")
    s.update()
    mon.le("step:norm", abs(np.linalg.norm(dn.dense_state(s.A)) - 1), 1e-10, what="expanded")


def run_op(rng, mon):
    s, terms, linds = build(rng, mon, sites=2)
    qs = list(s.q[1:])
    psi = dn.dense_state(s.A)
    n = int(rng.randint(1, s.N + 1))
    op = dn.rand_op(rng, [qs[n - 1]], herm=bool(rng.randint(2)))
    arg = (lambda a, b: op[int(a), int(b)]) if rng.randint(2) else op.copy()
    A0 = gen.copyA(s.A)
    B = s.calc_B_1s_diss(arg, n)
    mon.event("calc_B_1s_diss")
    dA = [None] * (s.N + 1)
    dA[n] = B
    got = dn.tangent_vector(s.A, dA)
    v = dn.apply_local(op, n, psi, qs)
    want = v - psi * np.vdot(psi, v)
    mon.nontrivial = bool(np.linalg.norm(want) > 1e-6)
    mon.state(psi, op)
    mon.le("op:norm-projected", np.linalg.norm(got - want) / max(np.linalg.norm(v), 1e-3), 1e-9, n=n)
    mon.true("op:state-unchanged", all(np.array_equal(a, b) for a, b in zip(A0[1:], s.A[1:])))


if __name__ == "__main__":
    sys.exit(core.main(sys.modules["__main__"], sys.argv[1:]))
