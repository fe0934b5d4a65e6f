"""P07: finite-chain TDVP integrators follow the projected Schroedinger flow."""
import copy
import sys
import numpy as np
import scipy.linalg as la
from mon import core, dense as dn, gen, finite, watch
import evoMPS.tdvp_gen as tg

ID = "P07"
RULE = ("A case is one random finite chain, Hamiltonian, complex time direction and schedule of Euler / RK4 steps and "
        "updates; each step is compared with an independent dense integration of the flow d psi/d tau = "
        "-P(H-E)psi, non-trivial if the state moves.")
REQUIRED_RULES = ["euler:order", "rk4:order", "rk4:error", "full-D:exact", "conserve:energy", "conserve:norm",
                  "rk4:B_i-same", "rk4:B_i-unmutated", "history:flow", "imag:energy-slope"]
ASSUMPTIONS = ["states are well conditioned (Schmidt ratio > 1e-2), so that the flow is smooth over one step"]


def cases(tier, seed):
    k = 1 if tier == "quick" else 6
    rng = np.random.RandomState(seed * 19 + 7)
    out = []
    for i in range(110 * k):
        out.append({"kind": "order", "seed": int(rng.randint(1 << 30)), "gauge": ["right", "left"][i % 2],
                    "sites": 2 + (i // 2) % 2, "dir": ["real", "imag", "complex"][i % 3], "cost": 2})
    for i in range(40 * k):
        out.append({"kind": "fullD", "seed": int(rng.randint(1 << 30)), "gauge": ["right", "left"][i % 2],
                    "sites": 2 + (i // 2) % 2, "dir": ["real", "imag", "complex"][i % 3], "cost": 2})
    for i in range(40 * k):
        out.append({"kind": "history", "seed": int(rng.randint(1 << 30)), "gauge": ["right", "left"][i % 2],
                    "sites": 2 + (i // 2) % 2, "dir": ["real", "real", "imag"][i % 3], "cost": 3})
    return out


def run(case, mon):
    rng = np.random.RandomState(case["seed"])
    globals()["run_" + case["kind"]](case, rng, mon)


def setup(case, rng, maxdim, full=False, Nmax=6):
    sites = case["sites"]
    for _ in range(200):
        N, D, q = gen.rand_chain_shape(rng, Nmin=max(2, sites), Nmax=Nmax, maxdim=maxdim, Dmax=4)
        if full:
            D = gen.max_D(q[1:])
        A = gen.rand_tensors(rng, N, D, q, "random")
        s0 = finite.make(tg.EvoMPS_TDVP_Generic, A, N, D, q, None, ham_sites=sites)
        if gen.full_rank(A, N) > 3e-2:
            break
    else:
        raise core.Inconclusive("no well conditioned state found")
    ham, terms = finite.rand_ham(rng, N, q, sites, ["array", "gaps", "callable"][rng.randint(3)])
    s = finite.make(tg.EvoMPS_TDVP_Generic, A, N, D, q, ham, ham_sites=sites)
    s.gauge_fixing = case["gauge"]
    s.canonical_form = case["gauge"] if rng.rand() < 0.7 else ["left", "right"][rng.randint(2)]
    s.update()
    return N, D, q, terms, s


def direction(case, rng):
    if case["dir"] == "real":
        return 1j if rng.rand() < 0.7 else -1j
    if case["dir"] == "imag":
        return 1.0
    return np.exp(1j * rng.uniform(-1.5, 1.5))


class Flow(object):
    """Independent integrator of A' = -B, B a least-squares lift of
    P_T (H - E) psi; the physical trajectory does not depend on the lift."""

    def __init__(self, terms, qs):
        self.terms, self.qs = terms, qs

    def rhs(self, A):
        psi = dn.dense_state(A)
        n2 = np.vdot(psi, psi).real
        w = dn.apply_ham(self.terms, psi, self.qs)
        w = w - (np.vdot(psi, w) / n2) * psi
        M = dn.tangent_basis(A)
        x = np.linalg.lstsq(M, w, rcond=1e-10)[0]
        B, k = [None], 0
        for a in A[1:]:
            B.append(x[k:k + a.size].reshape(a.shape))
            k += a.size
        return B

    def step(self, A, dt):
        def ax(A, B, c):
            return [None] + [a - c * b for a, b in zip(A[1:], B[1:])]
        k1 = self.rhs(A)
        k2 = self.rhs(ax(A, k1, dt / 2))
        k3 = self.rhs(ax(A, k2, dt / 2))
        k4 = self.rhs(ax(A, k3, dt))
        return [None] + [a - dt / 6 * (b1 + 2 * b2 + 2 * b3 + b4)
                         for a, b1, b2, b3, b4 in zip(A[1:], k1[1:], k2[1:], k3[1:], k4[1:])]

    def run(self, A, dt, n):
        A = gen.copyA(A)
        for _ in range(n):
            A = self.step(A, dt / n)
        return A


def vec(s):
    return dn.dense_state(s.A)


def run_order(case, rng, mon):
    N, D, q, terms, s = setup(case, rng, 64)
    mon.info.update(N=N, D=D, q=q)
    qs = q[1:]
    nrm = max(np.linalg.norm(t.reshape(int(np.sqrt(t.size)), -1), 2) for t in terms.values()) * max(1, len(terms)) ** 0.5
    d = direction(case, rng)
    h = 0.24 / nrm
    fl = Flow(terms, qs)
    # step size at which a 4th-order step is in its asymptotic regime
    for _ in range(8):
        a = dn.dense_state(fl.run(s.A, h * d, 1))
        b = dn.dense_state(fl.run(s.A, h * d, 2))
        if np.linalg.norm(a - b) < 2e-6:
            break
        h *= 0.6
    psi0 = vec(s)
    E0 = s.H_expect.real
    s1 = copy.deepcopy(s)
    eta = None
    errs = {"euler": [], "rk4": []}
    Bi = s.calc_B()
    mon.nontrivial = abs(s.eta) > 1e-3
    if abs(s.eta) < 1e-3:
        mon.event("stationary")
    # shrink the step until a fourth-order step is in its asymptotic regime;
    # an integrator of lower order never gets there and fails the order rule
    for attempt in range(7):
        errs = {"euler": [], "rk4": []}
        for f in (1.0, 0.5, 0.25):
            dt = h * f * d
            ref = dn.dense_state(fl.run(s.A, dt, 4))
            for nm in errs:
                t = copy.deepcopy(s1)
                if nm == "euler":
                    t.take_step(dt)
                else:
                    t.take_step_RK4(dt)
                mon.event("step:" + nm)
                errs[nm].append(np.linalg.norm(vec(t) - ref))
                mon.le("step:eta", abs(t.eta - s.eta) / max(1e-3, abs(s.eta)), 1e-6, m=nm)
            if f == 1.0 and errs["rk4"][0] > 1e-5:
                break
        else:
            break
        h *= 0.6
    else:
        mon.true("rk4:error", False, errs=errs)
        return
    mon.state(psi0, ref)
    for nm, p in (("euler", 2), ("rk4", 5)):
        e = errs[nm]
        if e[0] > 4e-8:
            mon.le(nm + ":order", 2 * p - np.log2(e[0] / max(e[2], 1e-16)) if e[2] > 3e-12 else 0.0, 1.1 if p == 5 else 0.9,
                   errs=e, dir=str(d))
        else:
            mon.event(nm + ":below-noise")
    mon.le("rk4:error", errs["rk4"][2], 1e-7, errs=errs["rk4"])
    # precomputed first stage
    t = copy.deepcopy(s1)
    t.take_step_RK4(h * d)
    u = copy.deepcopy(s1)
    B = u.calc_B()
    B0 = [None if b is None else b.copy() for b in B]
    u.take_step_RK4(h * d, B_i=B)
    mon.le("rk4:B_i-same", np.linalg.norm(vec(u) - vec(t)), 1e-10)
    mon.true("rk4:B_i-unmutated", all((a is None and b is None) or np.array_equal(a, b) for a, b in zip(B, B0)))
    u = copy.deepcopy(s1)
    B = u.calc_B()
    B0 = [None if b is None else b.copy() for b in B]
    u.take_step(h * d, B=B)
    v = copy.deepcopy(s1)
    v.take_step(h * d)
    mon.le("euler:B-same", np.linalg.norm(vec(u) - vec(v)), 1e-10)
    mon.true("euler:B-unmutated", all((a is None and b is None) or np.array_equal(a, b) for a, b in zip(B, B0)))
    # energy slope in imaginary time: dE/dtau = -2 eta^2
    r = []
    for f in (1e-3, 5e-4):
        t = copy.deepcopy(s1)
        t.take_step(f / nrm)
        t.update()
        r.append((E0 - t.H_expect.real) / (f / nrm))
    slope = 2 * r[1] - r[0]
    sc = max(1e-2 * nrm, 2 * abs(s.eta) ** 2)
    mon.le("imag:energy-slope", (slope - 2 * abs(s.eta) ** 2) / sc, 2e-3, slope=slope, eta=abs(s.eta))


def run_fullD(case, rng, mon):
    N, D, q, terms, s = setup(case, rng, 36, full=True, Nmax=5)
    mon.info.update(N=N, D=D, q=q)
    qs = q[1:]
    H = dn.ham_full(terms, qs)
    d = direction(case, rng)
    nrm = np.linalg.norm(H, 2)
    n = 24
    dt = 0.06 / nrm * d
    psi = vec(s)
    U = la.expm(-dt * (n) * H)
    want = U.dot(psi)
    want /= np.linalg.norm(want)
    mon.nontrivial = dn.ray_distance(want, psi) > 1e-3
    start = s
    for refine in (1, 2, 4):
        s = copy.deepcopy(start)
        for k in range(n * refine):
            if k % 3 == 1 and rng.rand() < 0.5:
                s.update(restore_CF=bool(rng.rand() < 0.5))
            elif k:
                s.update()
            s.take_step_RK4(dt / refine)
            mon.event("step:rk4")
        s.update()
        err = dn.ray_distance(vec(s), want)
        if err < 1e-4:
            break
    mon.le("full-D:exact", err, 1e-4, dir=str(d), N=N)
    mon.state(psi, want)


def run_history(case, rng, mon):
    """A schedule of steps of both kinds with updates of all kinds between
    them, against the dense flow."""
    N, D, q, terms, s = setup(case, rng, 32, Nmax=5)
    mon.info.update(N=N, D=D, q=q)
    qs = q[1:]
    H = dn.ham_full(terms, qs)
    nrm = max(1e-3, np.linalg.norm(H, 2))
    real = case["dir"] == "real"
    d = 1j if real else 1.0
    h = 0.02 / nrm
    psi0 = vec(s)
    E0 = np.vdot(psi0, H.dot(psi0)).real
    fl = Flow(terms, qs)
    start = s
    for refine in (1, 2, 4):
        # (a steep stretch of the trajectory needs smaller steps)
        s = copy.deepcopy(start)
        ref = gen.copyA(s.A)
        E_last = E0
        sched = []
        for k in range(12 * refine):
            if k:
                m = rng.randint(3)
                kw = [{}, {"restore_CF": False}, {"normalize": False, "auto_truncate": False}][m]
                sched.append(m)
                s.update(**kw)
                if not real and "restore_CF" not in kw:
                    mon.true("imag:monotone", s.H_expect.real <= E_last + 1e-9 * nrm, E=s.H_expect.real, before=E_last)
                    E_last = s.H_expect.real
            s.take_step_RK4(d * h / refine)
            mon.event("step:rk4")
            ref = fl.run(ref, d * h / refine, 1)
        s.update()
        psi, r = vec(s), dn.dense_state(ref)
        err = dn.ray_distance(psi, r)
        dE = abs(s.H_expect.real - E0) / nrm if real else 0.0
        if err < 2e-5 and dE < 1e-6:
            break
    mon.nontrivial = dn.ray_distance(psi0, r) > 1e-3
    mon.le("history:flow", err, 2e-5, sched=sched)
    if real:
        mon.le("conserve:energy", abs(s.H_expect.real - E0) / nrm, 1e-6, sched=sched)
        # no renormalisation: the step itself preserves the norm
        n0 = np.linalg.norm(vec(s))
        s.take_step_RK4(d * h)
        mon.le("conserve:norm", abs(np.linalg.norm(vec(s)) - n0), 1e-7)
    else:
        mon.true("variational-bound", s.H_expect.real >= np.linalg.eigvalsh(H)[0] - 1e-9 * nrm)
    mon.state(psi, r)


if __name__ == "__main__":
    sys.exit(core.main(sys.modules["__main__"], sys.argv[1:]))
