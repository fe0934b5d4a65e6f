"""P08: line search and conjugate-gradient energy minimisation (finite)."""
import copy
import sys
import numpy as np
from mon import core, dense as dn, gen, finite, watch
import evoMPS.tdvp_gen as tg
from props import p07

ID = "P08"
RULE = ("A case is one random finite chain and Hamiltonian with a line search along a tangent vector, or a whole "
        "conjugate-gradient / imaginary-time minimisation run; non-trivial if the energy goes down.")
REQUIRED_RULES = ["linesearch:energy", "linesearch:state-restored", "linesearch:lower", "linesearch:local-minimum",
                  "cg:direction", "cg:gradient", "cg:energy-never-rises", "cg:converges", "variational-bound",
                  "imag:converges"]
ASSUMPTIONS = ["the reference minimum of convergence rules is the dense ground energy; they use full bond dimension"]


def cases(tier, seed):
    k = 1 if tier == "quick" else 8
    rng = np.random.RandomState(seed * 23 + 8)
    out = []
    for i in range(80 * k):
        out.append({"kind": "search", "seed": int(rng.randint(1 << 30)), "gauge": ["right", "left"][i % 2],
                    "sites": 2 + (i // 2) % 2, "dir": "imag", "cost": 2})
    for i in range(40 * k):
        out.append({"kind": "cg", "seed": int(rng.randint(1 << 30)), "gauge": ["right", "left"][i % 2],
                    "sites": 2 + (i // 2) % 2, "dir": "imag", "cost": 8})
    for i in range(16 * k):
        out.append({"kind": "itime", "seed": int(rng.randint(1 << 30)), "gauge": ["right", "left"][i % 2],
                    "sites": 2 + (i // 2) % 2, "dir": "imag", "cost": 8})
    return out


def run(case, mon):
    rng = np.random.RandomState(case["seed"])
    globals()["run_" + case["kind"]](case, rng, mon)


def energy(terms, psi, qs):
    return (np.vdot(psi, dn.apply_ham(terms, psi, qs)) / np.vdot(psi, psi)).real


def minus(A, B, t):
    return [None] + [a if b is None else a - t * b for a, b in zip(A[1:], B[1:])]


class Snap(object):
    """Everything a later query or step reads."""

    def __init__(self, s):
        self.d = {k: copy.deepcopy(getattr(s, k)) for k in ("A", "l", "r", "C", "K", "AA", "AAA", "h_expect", "D")}
        self.H = s.H_expect

    def diff(self, s):
        bad = []
        for k, v in self.d.items():
            w = getattr(s, k)
            for i in range(len(v)):
                a, b = v[i], w[i]
                if a is None and b is None:
                    continue
                if (a is None) != (b is None):
                    bad.append("%s[%d] None" % (k, i))
                    continue
                a = np.asarray(getattr(a, "toarray", lambda: a)())
                b = np.asarray(getattr(b, "toarray", lambda: b)())
                if a.shape != b.shape or np.abs(a - b).max(initial=0) > 1e-12:
                    bad.append("%s[%d]" % (k, i))
        if abs(s.H_expect - self.H) > 1e-12:
            bad.append("H_expect")
        return bad


def run_search(case, rng, mon):
    N, D, q, terms, s = p07.setup(case, rng, 128)
    qs = q[1:]
    mon.info.update(N=N, D=D, q=q)
    H = dn.ham_full(terms, qs)
    lam = np.linalg.eigvalsh(H)
    nrm = max(1e-6, lam[-1] - lam[0])
    B = s.calc_B()
    if abs(s.eta) < 1e-4 * nrm:
        mon.event("stationary")
        return
    E0 = s.H_expect.real
    snap = Snap(s)
    B0 = [None if b is None else b.copy() for b in B]
    ov = bool(rng.rand() < 0.25)
    dt0 = rng.uniform(0.05, 1.0) / nrm
    tau, h_min = s.find_min_h_brent(B, dt0, tol=5e-2 if rng.rand() < .5 else 1e-3, use_tangvec_overlap=ov)
    mon.event("linesearch:overlap" if ov else "linesearch:energy")
    mon.true("linesearch:state-restored", not snap.diff(s), changed=snap.diff(s)[:6], overlap=ov)
    mon.true("linesearch:direction-unmutated", all((a is None and b is None) or np.array_equal(a, b)
                                                   for a, b in zip(B, B0)))
    f = lambda t: energy(terms, dn.dense_state(minus(s.A, B, t)), qs)
    mon.le("linesearch:energy", abs(f(tau) - h_min) / nrm, 1e-6, tau=tau, overlap=ov)
    mon.true("variational-bound", h_min >= lam[0] - 1e-8 * nrm)
    mon.true("linesearch:tau>=0", np.isreal(tau) and tau >= 0, tau=tau)
    if tau == 0:
        mon.event("linesearch:gave-up")
    elif not ov:
        mon.nontrivial = True
        mon.true("linesearch:lower", h_min <= E0 + 1e-10 * nrm, tau=tau, h_min=h_min, E0=E0)
        # a bracketed minimum: neighbouring steps are not clearly better
        g = min(f(tau * 0.75), f(tau * 1.33))
        mon.true("linesearch:local-minimum", h_min <= g + 0.02 * abs(E0 - h_min) + 1e-9 * nrm, tau=tau, h=h_min, g=g, E0=E0)
    mon.state(dn.dense_state(s.A))
    # the caller then steps to the minimum
    s.take_step(tau, B=B)
    s.update()
    mon.le("linesearch:step-reaches", abs(s.H_expect.real - h_min) / nrm, 1e-6)
    # skipIfLower is a shortcut of the same search
    t = copy.deepcopy(s)
    B = t.calc_B()
    if abs(t.eta) > 1e-4 * nrm:
        E1 = t.H_expect.real
        snap = Snap(t)
        tau, h_min = t.find_min_h_brent(B, 1e-2 / nrm, skipIfLower=True)
        mon.true("linesearch:state-restored", not snap.diff(t), changed=snap.diff(t)[:6], skip=True)
        mon.true("linesearch:lower", h_min <= E1 + 1e-10 * nrm, skip=True)


def run_cg(case, rng, mon):
    N, D, q, terms, s = p07.setup(case, rng, 32, full=bool(rng.rand() < 0.6), Nmax=5)
    qs = q[1:]
    mon.info.update(N=N, D=D, q=q)
    H = dn.ham_full(terms, qs)
    lam = np.linalg.eigvalsh(H)
    nrm = lam[-1] - lam[0]
    if nrm < 1e-6:
        mon.event("constant energy")
        return
    full = list(D) == gen.max_D(qs)
    step = 0.3 / nrm
    B_CG, eta0 = None, 0.0
    last, E_start = s.H_expect.real, s.H_expect.real
    dt_init = step
    it, low = 0, False
    for it in range(60):
        reset = it % 8 == 0
        ref = s.calc_B()
        ref_eta = s.eta.real
        mon.true("variational-bound", s.H_expect.real >= lam[0] - 1e-9 * nrm, it=it)
        if ref_eta < 1e-7 * nrm:
            break
        snap = Snap(s)
        old = B_CG
        B_CG, B, eta, tau = s.calc_B_CG(B_CG, eta0, dt_init, reset=reset)
        mon.event("cg:iteration")
        mon.true("linesearch:state-restored", not snap.diff(s), changed=snap.diff(s)[:6], cg=True)
        sc = max(ref_eta, 1e-3)
        for n in range(1, N + 1):
            if ref[n] is None:
                continue
            mon.le("cg:gradient", np.abs(B[n] - ref[n]).max() / sc, 1e-8, n=n)
            beta = 0. if reset else ref_eta ** 2 / eta0 ** 2
            want = ref[n] + (beta * old[n] if beta else 0)
            # the code may restart from the gradient when the line search fails
            d = min(np.abs(B_CG[n] - want).max(), np.abs(B_CG[n] - ref[n]).max())
            mon.le("cg:direction", d / sc / max(1, beta), 1e-8, n=n, it=it)
        mon.le("cg:eta", abs(eta - ref_eta) / sc, 1e-8)
        eta0 = eta
        # (the search gives up when its initial step is far from the optimum)
        dt_init = tau if tau > 0 else dt_init * [4, 0.1][it % 4 == 3]
        mon.event("cg:gave-up", int(tau == 0))
        s.take_step(tau, B=B_CG)
        s.update()
        E = s.H_expect.real
        if list(s.D) != list(snap.d["D"]):
            B_CG, eta0 = None, 0.0
            mon.event("cg:bond shrank")
            break
        mon.true("cg:energy-never-rises", E <= last + 1e-8 * nrm, it=it, E=E, before=last)
        last = E
    mon.nontrivial = last < E_start - 1e-3 * nrm
    if full:
        mon.le("cg:converges", (last - lam[0]) / nrm, 2e-2 if it < 59 or lam[1] - lam[0] > 0.03 * nrm else 1e9, it=it)
    mon.state(dn.dense_state(s.A))


def run_itime(case, rng, mon):
    N, D, q, terms, s = p07.setup(case, rng, 32, full=True, Nmax=5)
    qs = q[1:]
    mon.info.update(N=N, D=D, q=q)
    lam = np.linalg.eigvalsh(dn.ham_full(terms, qs))
    nrm = lam[-1] - lam[0]
    gap = lam[1] - lam[0]
    if nrm < 1e-6 or gap < 0.04 * nrm:
        mon.event("small gap")
        return
    dt = 0.1 / nrm
    last = E_start = s.H_expect.real
    psi0 = dn.dense_state(s.A)
    steps = int(min(150, 10.0 / gap / dt))
    rk = bool(rng.rand() < 0.3)
    for k in range(steps):
        s.take_step_RK4(dt) if rk else s.take_step(dt)
        s.update()
        E = s.H_expect.real
        mon.event("step")
        mon.true("imag:monotone", E <= last + 1e-9 * nrm, E=E, before=last)
        mon.true("variational-bound", E >= lam[0] - 1e-9 * nrm)
        last = E
    w, V = np.linalg.eigh(dn.ham_full(terms, qs))
    c = np.abs(V.conj().T.dot(psi0)) ** 2 * np.exp(-2 * (w - w[0]) * steps * dt)
    want = (c * w).sum() / c.sum()
    mon.nontrivial = last < E_start - 1e-3 * nrm
    mon.le("imag:converges", (last - want) / nrm, 0.03, want=want, got=last, lam0=lam[0])
    mon.state(dn.dense_state(s.A))


if __name__ == "__main__":
    sys.exit(core.main(sys.modules["__main__"], sys.argv[1:]))
