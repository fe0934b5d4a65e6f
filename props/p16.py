"""P16: uniform time evolution, and the evolution / optimisation drivers in dynamics."""
import contextlib
import copy
import io
import sys
import numpy as np
from mon import core, dense as dn, uni, tang, gen, finite
from props import p07, p15
import evoMPS.tdvp_uniform as tu
import evoMPS.dynamics as dyn

ID = "P16"
RULE = ("A case is one evolution or optimisation run: uniform Euler / Runge-Kutta steps of several sizes, a ground "
        "state search (imaginary time, conjugate gradient, full driver with bond growth) for a random or Ising / XXZ "
        "chain, or a finite real-time run of a driver; checked against convergence orders, conservation laws, exact "
        "lower bounds, dense evolution and the callback log; non-trivial if the state moves.")
REQUIRED_RULES = ["uevo:rk4-order", "uevo:euler-order", "uevo:real-energy", "uevo:im-energy", "opt:converged",
                  "opt:lowered", "opt:bound", "opt:callbacks", "opt:expanded", "opt:valid", "evolve:state",
                  "evolve:energy", "evolve:callbacks", "ode:state", "ode:energy", "uevolve:state", "fexp:eta", "fexp:slope",
                  "fexp:D", "fexp:limit"]
ASSUMPTIONS = ["order checks use states with squared Schmidt values above 1e-2",
               "optimisation runs are bounded by an iteration limit; convergence is only judged when reported"]


def cases(tier, seed):
    k = 1 if tier == "quick" else 8
    rng = np.random.RandomState(seed * 41 + 16)
    out = []
    for kind, n in (("order", 24), ("imtime", 12), ("cg", 14), ("ground", 6), ("evolve", 24), ("ode", 12),
                    ("uevolve", 12), ("expand", 100)):
        for i in range(n * k):
            out.append({"kind": kind, "seed": int(rng.randint(1 << 30))})
    rng.shuffle(out)
    return out


def run(case, mon):
    rng = np.random.RandomState(case["seed"])
    np.random.seed(case["seed"] & 0x7fffffff)
    globals()["run_" + case["kind"]](case, rng, mon)


def dist(As, Bs):
    U, V = dn.Uniform(As), dn.Uniform(Bs)
    return uni.state_distance(U, V, 3 if U.q == 2 else 2)


def run_order(case, rng, mon):
    s, h, inf = p15.rand_tdvp(rng, mon, full_rank=1e-2, Dmax=4, Lmax=2)
    s.update()
    nh = np.linalg.norm(h.reshape(s.q ** (h.ndim // 2), -1), 2)
    d = [1j, -1j, 1.0][rng.randint(3)]
    mon.state(*s.A)
    mon.nontrivial = True
    s.calc_B()
    if abs(s.eta) < 1e-3 * nh:
        mon.nontrivial = False
        return

    def go(rule, T, n, cf):
        t = copy.deepcopy(s)
        for i in range(n):
            if rule == "rk4":
                B = t.calc_B() if rng.randint(2) else None
                C = copy.deepcopy(B)
                t.take_step_RK4(T / n, B_i=B)
                if B is not None:
                    mon.true("uevo:arg", all(np.array_equal(a, b) for a, b in zip(B, C)))
            else:
                t.take_step(T / n)
            t.update(restore_CF=cf)
        return t

    T = 0.2 / nh
    cf = bool(rng.randint(2))
    for attempt in range(8):
        ref = go("rk4", d * T, 16, cf)
        e = [dist(ref.A, go("rk4", d * T, n, cf).A) for n in (1, 2, 4)]
        if e[0] < 1e-5:
            break
        T *= 0.6
    else:
        mon.unsure("no asymptotic regime")
        return
    if e[1] > 1e-10:
        o = np.log2(e[0] / e[1])
        if e[2] > 1e-10:
            o = max(o, np.log2(e[1] / e[2]))
        mon.le("uevo:rk4-order", max(0, 4 - o), 0.7, errs=e, dir=str(d), **inf)
    else:
        mon.le("uevo:rk4-order", 0, 0.7)
    # Euler converges to the same flow, to first order
    E = [dist(ref.A, go("euler", d * T, n, cf).A) for n in (8, 16, 32)]
    if E[2] > 1e-9:
        mon.le("uevo:euler-order", abs(max(np.log2(E[0] / E[1]), np.log2(E[1] / E[2])) - 1), 0.35, errs=E,
               **inf)
    moved = dist(s.A, ref.A)
    mon.le("uevo:euler-order", E[2], 0.3 * moved + 1e-7, errs=E, moved=moved, size=True)
    e0, e1 = tang.energy(s.A, h), tang.energy(ref.A, h)
    if d == 1.0:
        eta2 = float(np.sum(s.eta_sq).real)
        mon.true("uevo:im-energy", e1 < e0, e0=e0, e1=e1, **inf)
        mon.le("uevo:im-energy", abs((e1 - e0) / (-2 * eta2 * T / s.L) - 1), 0.8, e0=e0, e1=e1, rate=True, **inf)
    else:
        mon.le("uevo:real-energy", abs(e1 - e0) / nh, 1e-8, e0=e0, e1=e1, **inf)


# --------------------------------------------------------------- optimisation

def model(rng):
    sx = np.array([[0, 1], [1, 0]], dtype=complex)
    sz = np.diag([1., -1.]).astype(complex)
    sy = np.array([[0, -1j], [1j, 0]])
    t = ["ising", "xxz", "random"][rng.randint(3)]
    if t == "ising":
        g = float(rng.choice([0.4, 1.6, 2.5]))
        h = -np.kron(sx, sx) - g / 2 * (np.kron(sz, np.eye(2)) + np.kron(np.eye(2), sz))
    elif t == "xxz":
        b = float(rng.uniform(.5, 2))
        h = np.kron(sx, sx) + np.kron(sy, sy).real + b * np.kron(sz, sz)
        # sublattice rotation: antiferromagnet with one-site period
        u = np.kron(np.eye(2), sy)
        h = u.dot(h).dot(u.conj().T)
    else:
        h = dn.rand_op(rng, [2, 2], herm=True).reshape(4, 4)
    return t, np.asarray(h).reshape([2] * 4)


def lower_bound(h, n=7):
    """Anderson bound: the ground energy of an open n-site chain over its n-1 terms."""
    q = h.shape[0]
    H = np.zeros((q ** n, q ** n), dtype=complex)
    hm = h.reshape(q * q, q * q)
    for j in range(n - 1):
        H += np.kron(np.kron(np.eye(q ** j), hm), np.eye(q ** (n - 2 - j)))
    return np.linalg.eigvalsh(H)[0] / (n - 1)


def start(rng, mon, Dmax=4):
    t, h = model(rng)
    L = int(rng.randint(1, 3))
    D = int(rng.randint(2, Dmax + 1))
    s = tu.EvoMPS_TDVP_Uniform(D, 2, h, L=L)
    for t_ in range(200):
        # large steps from badly conditioned states may raise the energy
        for k in range(L):
            s.A[k][:] = uni.cplx(rng, 2, D, D) / np.sqrt(2 * D)
        U = dn.Uniform(s.A)
        if U.gap > 0.1 and min(U.schmidt_sq(k).min() for k in range(L)) > (0.03 if D < 4 else 0.015):
            break
    else:
        raise core.Inconclusive("no well conditioned start")
    s.symm_gauge = bool(rng.randint(2))
    s.update()
    mon.info.update(model=t, L=L, D=D)
    mon.event("model:" + t)
    mon.state(*s.A)
    return s, h


def final(mon, s, h, e0, tol, itr, max_itr, what):
    nh = np.linalg.norm(h.reshape(4, 4), 2)
    s.update()
    B = s.calc_B()
    e = tang.energy(s.A, h)
    T = tang.Tang(s.A)
    env = uni.env_errors(s)
    mon.le("opt:valid", max(env['norm'], env['l'], env['r']), 1e-6, what=what)
    mon.le("opt:valid", abs(s.h_expect - e) / nh, 1e-8, energy=True, what=what)
    if itr is not None and itr < max_itr + 1:
        mon.le("opt:converged", np.sqrt(abs(np.sum(s.eta_sq))), 3 * tol + 1e-7, what=what, itr=itr)
    if what != "cg" or (itr is not None and itr < max_itr + 1):
        mon.le("opt:lowered", max(0, e - e0), 1e-9 * nh, e0=e0, e=e, what=what)
    lb = lower_bound(h)
    mon.le("opt:bound", max(0, lb - e), 1e-9 * nh, e=e, bound=lb, what=what)
    mon.nontrivial = e0 - e > 1e-6 * nh
    return e


class Log(object):
    def __init__(self):
        self.rows = []

    def __call__(self, sys_, i, **kw):
        self.rows.append((i, complex(sys_.h_expect).real, float(abs(sys_.eta)), sys_.D, kw))


def run_imtime(case, rng, mon):
    s, h = start(rng, mon)
    e0 = tang.energy(s.A, h)
    log = Log()
    tol = 10. ** rng.uniform(-4, -1.5)
    mx = int(rng.choice([3, 40, 150]))
    D0 = s.D
    grow = rng.rand() < 0.4
    ex = D0 + int(rng.randint(1, 3)) if grow else None
    auto = bool(rng.randint(2))
    nh = np.linalg.norm(h.reshape(4, 4), 2)
    r, n, tau, dtau = dyn.opt_im_time(s, tol=tol, dtau_base=0.05 / nh, max_itr=mx, cb_func=log, auto_dtau=auto,
                                      auto_trunc=False, expand_to_D=ex, expand_tol=0.5 * nh, expand_step=2)
    mon.true("opt:callbacks", r is s and [x[0] for x in log.rows] == list(range(n)) and n <= mx + 1, n=n,
             rows=len(log.rows))
    if not auto:
        mon.le("opt:callbacks", abs(tau - (n - 1) * 0.05 / nh), 1e-9, tau=tau)
        mon.le("opt:callbacks", abs(log.rows[-1][4]["tau"] - tau), 1e-9, tau=tau)
        es = [x[1] for x in log.rows]
        if not grow:
            mon.le("opt:lowered", max([0] + [b - a for a, b in zip(es, es[1:])]), 1e-8 * nh, steps=True)
    if n < mx + 1:
        mon.le("opt:converged", log.rows[-1][2], tol, last=True)
        if grow:
            mon.true("opt:expanded", s.D == ex, D=s.D, to=ex)
    mon.true("opt:D", s.D <= (ex or D0), D=s.D)
    final(mon, s, h, e0, tol, n, mx, "imtime")


def run_cg(case, rng, mon):
    s, h = start(rng, mon)
    nh = np.linalg.norm(h.reshape(4, 4), 2)
    # conditioning steps, as the drivers do
    with contextlib.redirect_stdout(io.StringIO()):
        dyn.opt_im_time(s, tol=0.1 * nh, dtau_base=0.05 / nh, max_itr=30, auto_trunc=False)
    s.update()
    e0 = tang.energy(s.A, h)
    log = Log()
    tol = 10. ** rng.uniform(-5, -2) * nh
    mx = int(rng.choice([4, 15, 40]))
    r, n, h0 = dyn.opt_conj_grad(s, tol=tol, h_init=0.02 / nh, max_itr=mx, cb_func=log,
                                 reset_every=int(rng.choice([1, 5, 20])))
    es = [x[1] for x in log.rows]
    mon.true("opt:callbacks", r is s and [x[0] for x in log.rows] == list(range(n)) and n <= mx + 1, n=n)
    mon.true("opt:step-positive", all(x[4]["h"] >= 0 for x in log.rows))
    # the line search accepts decreasing steps only; the blind fallback is a short gradient step
    ups = [b - a for a, b, x in zip(es, es[1:], log.rows) if abs(x[4]["h"] * nh / 0.02 - 1) > 1e-9]
    # the line search is a heuristic: a rare failure is legitimate, a habit is not
    bad = sum(x > 1e-7 * nh for x in ups)
    mon.true("opt:mostly-lowered", bad <= max(1, len(ups) // 4), bad=bad, n=len(ups))
    if n < mx + 1:
        mon.le("opt:converged", log.rows[-1][2], tol, last=True)
    final(mon, s, h, e0, tol, n, mx, "cg")


def run_ground(case, rng, mon):
    s, h = start(rng, mon, Dmax=2)
    nh = np.linalg.norm(h.reshape(4, 4), 2)
    e0 = tang.energy(s.A, h)
    log = Log()
    ex = int(rng.choice([2, 4]))
    tol = 1e-4 * nh
    mx = 250
    h_init = 0.05 / nh
    r = dyn.find_ground(s, tol=tol, h_init=h_init, max_itr=mx, expand_to_D=ex if ex > s.D else None, expand_step=1,
                        cb_func=log, CG_start_tol=0.05 * nh, expand_tol=1e-2 * nh)
    mon.true("opt:callbacks", r is s and all(b[0] >= a[0] for a, b in zip(log.rows, log.rows[1:])))
    mon.true("opt:expanded", s.D == ex, D=s.D, to=ex)
    e = final(mon, s, h, e0, tol, None, mx, "ground")
    if len(log.rows) < mx:
        mon.le("opt:converged", log.rows[-1][2], tol, what="ground")
    if mon.info.get("model") == "ising" and log.rows[-1][2] <= tol:
        # close to the exact energy of the infinite chain
        g = -h[0, 0, 0, 0].real
        x = np.linspace(0, np.pi, 20001)
        ex_e = -np.trapz(np.sqrt(1 + g * g - 2 * g * np.cos(x)), x) / np.pi
        mon.le("opt:bound", max(0, ex_e - e), 1e-7, exact=True)
        mon.le("opt:ising", e - ex_e, 2e-2, e=e, exact=ex_e)


# ------------------------------------------------------- finite-chain drivers

def fin_setup(case, rng, full, Nmax=5):
    c = dict(case, sites=int(rng.randint(2, 4)), gauge="right")
    N, D, q, terms, s = p07.setup(c, rng, 40, Nmax=Nmax)
    s.canonical_form = "right"
    if full:
        D = gen.max_D(q[1:])
        A = gen.rand_tensors(rng, N, D, q, "random")
        ham = [None] * (N + 1)
        for n in terms:
            ham[n] = terms[n]
        import evoMPS.tdvp_gen as tg
        s = tg.EvoMPS_TDVP_Generic(N, D, q, ham, c["sites"])
        s.set_state_from_tensors(gen.copyA(A), do_update=False)
    s.update()
    return N, D, q, terms, s


def vec(s):
    v = dn.dense_state(s.A)
    return v


def exact(H, psi, t):
    w, v = np.linalg.eigh(H)
    return v.dot(np.exp(-1j * w * t) * v.conj().T.dot(psi))


def run_evolve(case, rng, mon):
    full = bool(rng.randint(2))
    N, D, q, terms, s = fin_setup(case, rng, full)
    H = dn.ham_full(terms, q[1:])
    nrm = max(1e-3, np.linalg.norm(H, 2))
    psi0 = vec(s)
    mon.state(psi0)
    mon.info.update(N=N, D=[int(x) for x in D], q=q, full=full)
    integ = ["euler", "rk4"][rng.randint(2)]
    n = int(rng.choice([1, 4, 8]))
    dt = (0.02 if integ == "euler" else 0.1) / nrm
    t = dt * n
    dynexp = rng.rand() < 0.3
    Dm = int(rng.randint(1, 5)) + 1
    seen = []
    kw = dict(cb_func=(lambda x, i: seen.append((i, x.copy() if False else complex(x.H_expect).real))))
    if dynexp:
        kw.update(dynexp=True, D_max=max(Dm, max(s.D)), dD_max=2)
    else:
        kw.update(dynexp=False)
    r = dyn.evolve(s, t, dt=dt, integ=integ, auto_truncate=bool(rng.randint(2)) if not dynexp else True, **kw)
    mon.true("evolve:callbacks", r is s and [x[0] for x in seen] == list(range(n + 1)), seen=len(seen), n=n)
    psi = vec(s)
    mon.le("evolve:norm", abs(np.linalg.norm(psi) - 1), 1e-8)
    e0 = np.vdot(psi0, H.dot(psi0)).real
    e1 = np.vdot(psi, H.dot(psi)).real
    amp = 1.0
    if not dynexp:
        amp = min(50., 1 / max(1e-9, min_schmidt(psi0, N, q, D)))
    if amp >= 50.:
        mon.unsure("badly conditioned")
        return
    tolE = amp ** 2 * (2 * n * 0.02 ** 2 if integ == "euler" else 5e-4 * n * 0.1 ** 2)
    if dynexp:
        mon.true("evolve:dmax", max(s.D) <= max(Dm, max(D)), D=[int(x) for x in s.D])
        tolE += 0.05
    if not (dynexp and integ == "rk4"):
        mon.le("evolve:energy", abs(e1 - e0) / nrm, tolE, integ=integ, n=n, dyn=dynexp)
    mon.nontrivial = dn.ray_distance(psi, psi0) > 1e-4
    if dynexp:
        return
    if full:
        ref = exact(H, psi0, dt * n)
    else:
        A = [None] + [np.array(a) for a in finite_tensors(case, rng, s, psi0, D)]
        ref = dn.dense_state(p07.Flow(terms, q[1:]).run(A, 1j * dt * n, 4 * n + 8))
    tol = n * ((0.02 ** 2) * 3 if integ == "euler" else 1e-3)
    err = dn.ray_distance(psi, ref)
    mon.le("evolve:state", err, tol * amp, integ=integ, n=n, full=full)


def min_schmidt(psi, N, q, D):
    m = 1.
    for n in range(1, N):
        sv = dn.schmidt(psi, n, q[1:])[:D[n]]
        m = min(m, sv[-1] / sv[0])
    return m


def finite_tensors(case, rng, s, psi0, D):
    """Left-canonical tensors of psi0 (bond dimensions D)."""
    qs = list(s.q[1:])
    N = len(qs)
    X = psi0.reshape(1, -1)
    out = []
    for n in range(1, N):
        X = X.reshape(X.shape[0] * qs[n - 1], -1)
        u, sv, vh = np.linalg.svd(X, full_matrices=False)
        d = int(min(D[n], (sv > 1e-12 * sv[0]).sum()))
        a = u[:, :d].reshape(-1, qs[n - 1], d).transpose(1, 0, 2)
        out.append(a)
        X = sv[:d, None] * vh[:d]
    out.append(X.reshape(X.shape[0], qs[-1], 1).transpose(1, 0, 2))
    return out


def run_ode(case, rng, mon):
    full = rng.rand() < 0.6
    N, D, q, terms, s = fin_setup(case, rng, full, Nmax=4)
    H = dn.ham_full(terms, q[1:])
    nrm = max(1e-3, np.linalg.norm(H, 2))
    psi0 = vec(s)
    if not full and min_schmidt(psi0, N, q, D) < 0.05:
        return
    mon.state(psi0)
    T = rng.uniform(.2, .6) / nrm
    log = []
    with contextlib.redirect_stdout(io.StringIO()):
        dyn.evolve_scipy_ode(s, T, 200, rtol=1e-8, atol=1e-10, callback=lambda x, g, i: log.append((i, g.t, g.status)))
    mon.true("ode:callbacks", [x[0] for x in log] == list(range(len(log))) and all(
        b[1] > a[1] for a, b in zip(log, log[1:])) and log[-1][2] == "finished" and abs(log[-1][1] - T) < 1e-9,
        log=log[-2:], T=T)
    psi = vec(s)
    e0 = np.vdot(psi0, H.dot(psi0)).real
    e1 = (np.vdot(psi, H.dot(psi)) / np.vdot(psi, psi)).real
    mon.le("ode:energy", abs(e1 - e0) / nrm, 1e-5)
    mon.nontrivial = dn.ray_distance(psi, psi0) > 1e-4
    if full:
        ref = exact(H, psi0, T)
    else:
        A = [None] + finite_tensors(case, rng, s, psi0, D)
        ref = dn.dense_state(p07.Flow(terms, q[1:]).run(A, 1j * T, 30))
    mon.le("ode:state", dn.ray_distance(psi, ref), 1e-4, full=full, N=N)


def run_uevolve(case, rng, mon):
    s, h, inf = p15.rand_tdvp(rng, mon, full_rank=1e-2, Dmax=4, Lmax=2)
    s.update()
    nh = np.linalg.norm(h.reshape(s.q ** (h.ndim // 2), -1), 2)
    n = int(rng.choice([1, 3, 6]))
    integ = ["euler", "rk4"][rng.randint(2)]
    dt = (0.01 if integ == "euler" else 0.05) / nh
    seen = []
    A0 = copy.deepcopy(s)
    mon.state(*s.A)
    grow = rng.rand() < 0.3
    D0 = s.D
    kw = dict(dynexp=True, D_max=D0 + 2, dD_max=1) if grow else dict(dynexp=False)
    r = dyn.evolve(s, dt * n, dt=dt, integ=integ, cb_func=lambda x, i: seen.append(i),
                   auto_truncate=grow, **kw)
    mon.true("evolve:callbacks", r is s and seen == list(range(n + 1)), uniform=True)
    e0, e1 = tang.energy(A0.A, h), tang.energy(s.A, h)
    if not (grow and integ == "rk4"):
        mon.le("evolve:energy", abs(e1 - e0) / nh, (0.05 if grow else n * (3e-4 if integ == "euler" else 1e-5) * 10),
               uniform=True, integ=integ, grow=grow, **inf)
    mon.true("evolve:dmax", s.D <= max(D0, D0 + 2 if grow else D0), D=s.D)
    mon.nontrivial = abs(A0.D) >= 1
    if grow:
        return
    ref = copy.deepcopy(A0)
    for i in range(4 * n):
        ref.take_step_RK4(1j * dt / 4)
        ref.update()
    moved = dist(A0.A, ref.A)
    mon.le("uevolve:state", dist(s.A, ref.A), (0.3 if integ == "euler" else 0.01) * moved + 1e-6, integ=integ,
           moved=moved, **inf)


def run_expand(case, rng, mon):
    """Dynamic expansion of finite chains: the two-site part of H|psi>."""
    sites = int(rng.randint(2, 4))
    N, D, q, kind, A = finite.rand_state(rng, kinds=["random", "real"], Nmin=sites, Nmax=6, maxdim=100)
    ham, terms = finite.rand_ham(rng, N, q, sites, ["array", "gaps", "callable"][rng.randint(3)])
    import evoMPS.tdvp_gen as tg
    s = finite.make(tg.EvoMPS_TDVP_Generic, A, N, D, q, ham, sites)
    s.canonical_form = ["right", "left"][rng.randint(2)]
    s.gauge_fixing = ["right", "left"][rng.randint(2)]
    s.update()
    psi = vec(s)
    psi = psi / np.linalg.norm(psi)
    D = [int(x) for x in s.D]
    if min_schmidt(psi, N, q, D) < 0.02:
        return
    H = dn.ham_full(terms, q[1:])
    nrm = max(1e-3, np.linalg.norm(H, 2))
    mon.state(psi)
    mon.info.update(N=N, D=D, q=q, sites=sites)
    Hp = H.dot(psi)
    e0 = np.vdot(psi, Hp).real
    P1 = dn.range_projector(dn.tangent_basis(s.A))
    t1 = P1.dot(P1.conj().T.dot(Hp)) - e0 * psi
    # the two-site tangent space orthogonal to the one-site one, bond by bond
    want = [0.] * (N + 1)
    tot = np.zeros_like(psi)
    for n in range(1, N):
        X = two_site_part(psi, Hp, n, q[1:], terms, sites)
        want[n] = np.linalg.norm(X) ** 2
        tot = tot + X
    t = copy.deepcopy(s)
    t.take_step(1e-6 / nrm, calc_Y_2s=True)
    got = np.array(t.etaBB_sq)
    mon.le("fexp:eta", abs(got - np.array(want)).max() / nrm ** 2, 1e-8, got=abs(got), want=want)
    mon.true("fexp:D", list(t.D) == list(s.D), calc_only=True)
    mon.nontrivial = sum(want) > 1e-10 * nrm ** 2
    # first-order effect of an expanding step with no limits: every bond's part once
    f = []
    x0 = 2e-3 / nrm
    ph = [1., 1j, -1j][rng.randint(3)]
    cap = [{}, {"D_max": 1000}][rng.randint(2)]     # zero, the default, means no cap
    vs = []
    for j in range(4):
        x = x0 / 4 ** j
        t = copy.deepcopy(s)
        t.take_step(x * ph, dynexp=True, dD_max=1000, sv_tol=1e-12, **cap)
        v = vec(t)
        vs.append((v - psi_of(s)) / x)
        if j == 0:
            for n in range(N + 1):
                mon.true("fexp:D", t.D[n] >= s.D[n] and (want[n] > 1e-12 or t.D[n] == s.D[n] or n in (0, N)
                                                       or t.D[n] > s.D[n]), n=n)
    g = [(4 * vs[j + 1] - vs[j]) / 3 for j in range(3)]
    g = [(16 * g[j + 1] - g[j]) / 15 for j in range(2)]
    d = (64 * g[1] - g[0]) / 63
    ref = -ph * (t1 + tot) * np.linalg.norm(psi_of(s))
    # compare up to a change of norm and phase
    p0 = psi_of(s) / np.linalg.norm(psi_of(s))
    d = d - p0 * np.vdot(p0, d)
    ref = ref - p0 * np.vdot(p0, ref)
    mon.le("fexp:slope", np.linalg.norm(d - ref) / nrm, 1e-5, ph=str(ph))
    # limits
    for j in range(4):
        Dm, dm = int(rng.randint(1, 8)) if j == 0 else max(1, max(D) + int(rng.randint(-1, 3))), int(rng.randint(1, 7))
        t = copy.deepcopy(s)
        t.take_step(0.05 / nrm, dynexp=True, D_max=Dm, dD_max=dm)
        mon.true("fexp:limit", all(int(t.D[n]) <= max(D[n], min(Dm, D[n] + dm)) for n in range(N + 1)), D0=D,
                 D=[int(x) for x in t.D], D_max=Dm, dD_max=dm)
    v1 = vec(t)
    e1 = energy_of(H, v1)
    t.update()
    mon.le("fexp:update", dn.ray_distance(vec(t), v1), 1e-6)
    mon.le("fexp:energy", abs(t.H_expect - e1) / nrm, 1e-8)


def psi_of(s):
    return vec(s)


def energy_of(H, psi):
    return (np.vdot(psi, H.dot(psi)) / np.vdot(psi, psi)).real


def two_site_part(psi, Hp, n, qs, terms, sites):
    """H|psi> projected on two-site variations of (n, n+1) orthogonal to all one-site variations there."""
    def basis_left(k):      # range of the left Schmidt vectors over sites 1..k
        M = psi.reshape(int(np.prod(qs[:k])), -1)
        return dn.range_projector(M, 1e-7)
    def basis_right(k):     # right Schmidt vectors over sites k+1..N
        M = psi.reshape(int(np.prod(qs[:k])), -1)
        return dn.range_projector(M.T, 1e-7)
    L0 = basis_left(n - 1) if n > 1 else np.ones((1, 1))
    L1 = basis_left(n)
    R1 = basis_right(n)
    R2 = basis_right(n + 1) if n + 1 < len(qs) else np.ones((1, 1))
    M = Hp.reshape(int(np.prod(qs[:n])), -1)
    # left: within L0 x site, orthogonal to L1
    WL = np.kron(L0, np.eye(qs[n - 1]))
    PL = WL.dot(WL.conj().T) - L1.dot(L1.conj().T)
    WR = np.kron(np.eye(qs[n]), R2)
    PR = WR.dot(WR.conj().T) - R1.dot(R1.conj().T)
    return PL.dot(M).dot(PR.T).reshape(-1)


if __name__ == "__main__":
    sys.exit(core.main(sys.modules["__main__"], sys.argv[1:]))
