"""P23: time evolution of nonuniform windows in infinite chains."""
import copy
import sys
import numpy as np
from mon import core, gen, dense as dn, uni, sand, sandh
import evoMPS.mps_sandwich as ms
import evoMPS.mps_uniform as mu
import evoMPS.tdvp_sandwich as ts
import evoMPS.tdvp_uniform as tu
from . import p22

ID = "P23"
RULE = ("A case builds a random window between two bulks with two- or three-site Hamiltonians (constant, per site, callable, "
        "different in the bulks) and evolves, projects, enlarges or drives it with go(); non-trivial if the state is not "
        "stationary.")
REQUIRED_RULES = ["energy:terms", "energy:excess", "projection:B", "projection:norm", "projection:eta", "projection:read-only",
                  "projection:step", "history:state", "history:env", "flow:euler-order", "flow:rk4-error", "flow:B_i",
                  "flow:steps", "expand:error", "expand:shape", "expand:count", "expand:direction", "expand:update",
                  "from_mps:state", "from_mps:source", "go:step", "go:steps", "go:records"]
ASSUMPTIONS = ["the bulks are stationary while the window evolves; windows hold whole unit cells",
               "the environments and bond ranks are well conditioned (others are counted as inconclusive)"]
T = 1e-8


def cases(tier, seed):
    k = 1 if tier == "quick" else 8
    rng = np.random.RandomState(seed * 59 + 23)
    return [{"kind": kind, "seed": int(rng.randint(1 << 30)), "cost": 1}
            for kind, n in (("tangent", 60), ("history", 40), ("flow", 30), ("dynexp", 30), ("frommps", 30),
                            ("go", 16)) for _ in range(n * k)]


def run(case, mon):
    rng = np.random.RandomState(case["seed"])
    globals()["run_" + case["kind"]](rng, mon)


def rand_ham(rng, q, hs):
    return dn.rand_op(rng, [q] * hs, herm=True).reshape([q] * (2 * hs))


def setup(rng, mon, Lmax=2, Nmax=5, hams=None, hs=None, Dmax=3):
    hs = 2 + int(rng.randint(2)) if hs is None else hs
    As = p22.bulk(rng, mon, Lmax=Lmax, Dmax=Dmax)
    L, q, D = len(As), As[0].shape[0], As[0].shape[1]
    how = ["none", "regauged", "other"][rng.randint(3)]
    hL = rand_ham(rng, q, hs)
    hams = ["bulk", "quench", "window", "bulks"][rng.randint(4)] if hams is None else hams
    hR = rand_ham(rng, q, hs) if hams == "bulks" and how != "none" else hL
    ul = tu.EvoMPS_TDVP_Uniform.from_tensors(As, hL, hs)
    ul.update()
    ur = None
    if how == "regauged":
        ur = tu.EvoMPS_TDVP_Uniform.from_tensors(p22.regauge(rng, As), hR, hs)
        ur.update()
    elif how == "other":
        for _ in range(200):
            Bs = p22.bulk(rng, mon, Lmax=Lmax, Dmax=Dmax)
            if len(Bs) == L and Bs[0].shape == As[0].shape:
                break
        else:
            raise core.Inconclusive("no matching right bulk")
        ur = tu.EvoMPS_TDVP_Uniform.from_tensors(Bs, hR, hs)
        ur.update()
    N = L * int(rng.randint(1, max(2, Nmax // L) + 1))
    s = ts.EvoMPS_TDVP_Sandwich(N, ul, ur)
    fac = [0., .2, 1.][rng.randint(3)]
    for n in range(1, N + 1):
        s.A[n] = s.A[n] + fac * gen.cplx(rng, *s.A[n].shape) * np.linalg.norm(s.A[n]) / np.sqrt(s.A[n].size)
    mon.info.update(L=L, q=q, D=D, N=N, right=how, fac=fac, hs=hs, hams=hams)
    hC = [hL] * (N + 1)
    if hams == "quench":
        hC = [rand_ham(rng, q, hs)] * (N + 1)
    elif hams in ("window", "bulks"):
        hC = [rand_ham(rng, q, hs) for _ in range(N + 1)]
    if hams != "bulk":
        s.ham = list(hC)
    mon.event("bulk:" + how)
    mon.event("ham:" + hams)
    mon.nontrivial = True
    return s, hL, hC, hR


def oracle(s, hL, hC, hR):
    return sandh.SandH(s.uni_l.A, [s.A[n] for n in range(1, s.N + 1)], s.uni_r.A, hL,
                       lambda n: hC[n] if n >= 0 else hL, hR)


def energies(s, H, mon, **info):
    dE, e = H.energy()
    sc = 1 + abs(H.hL).max()
    for n in range(s.N + 1):
        mon.le("energy:terms", abs(s.h_expect[n] - e[n]), T, n=n, N=s.N, nc=s.N_centre, **info)
    mon.le("energy:excess", abs(s.dH_expect - dE), 1e-6, N=s.N, **info)


def tangent(s, H, mon, **info):
    mT, F, E, e = H.gram_force()
    B = s.calc_B()
    b = H.flat(B[1:])
    v = mT.dot(b)
    n2 = H.norm2(H.psi())
    sc = np.sqrt(n2)
    G = mT.conj().T.dot(v)
    mon.le("projection:B", np.linalg.norm(G - F) / (np.linalg.norm(F) + 1e-3 * n2), 1e-6, **info)
    mon.le("projection:norm", abs(np.vdot(H.vec(), v)) / n2, 1e-7, rel="orthogonal", **info)
    mon.le("projection:eta", abs(s.eta ** 2 - np.vdot(v, v).real / n2), 1e-6, **info)
    return B


def ready(rng, mon, **kw):
    s, hL, hC, hR = setup(rng, mon, **kw)
    p22.check_cond(sand.View.of(s))
    s.update()
    return s, hL, hC, hR


def run_tangent(rng, mon):
    s, hL, hC, hR = ready(rng, mon)
    form = rng.randint(4)
    if form == 0:
        # the same Hamiltonian as a function
        s.ham = (lambda hL, hC: lambda n, *a: (hC[n] if n >= 0 else hL)[tuple(int(i) for i in a)])(hL, list(hC))
        mon.event("callable")
    elif form == 1:
        s.ham = np.array(hC)
    mode = rng.randint(3)
    if mode == 0:
        s.A[1] = s.A[1] * np.exp(rng.uniform(-.3, .3))
        s.update(restore_CF=False)
    elif mode == 1:
        for n in range(1, s.N + 1):
            s.A[n] = s.A[n] + .1 * gen.cplx(rng, *s.A[n].shape)
        p22.check_cond(sand.View.of(s))
        s.update(restore_CF=False)
    else:
        s.update()
    H = oracle(s, hL, hC, hR)
    mon.state(H.vec())
    energies(s, H, mon, hs=H.hs)
    snap = copy.deepcopy(([uni.full(a) for a in s.A[1:s.N + 1]], [uni.full(a) for a in s.uni_l.A], [uni.full(a) for a in s.uni_r.A],
                          [uni.full(x) for x in s.l[:s.N + 1]], [uni.full(x) for x in s.r[:s.N + 1]]))
    B = tangent(s, H, mon, hs=H.hs, mode=mode)
    mon.event("calc_B")
    now = ([uni.full(a) for a in s.A[1:s.N + 1]], [uni.full(a) for a in s.uni_l.A], [uni.full(a) for a in s.uni_r.A],
           [uni.full(x) for x in s.l[:s.N + 1]], [uni.full(x) for x in s.r[:s.N + 1]])
    mon.true("projection:read-only", all(np.array_equal(a, b) for x, y in zip(snap, now) for a, b in zip(x, y)))
    # a plain step moves along B exactly
    dt = [.1, .1j, .1 * np.exp(2j * np.pi * rng.rand())][rng.randint(3)]
    B0 = [None if b is None else b.copy() for b in B]
    if rng.randint(2):
        s.take_step(dt, B=B)
        mon.true("projection:B-unmutated", all((a is None and b is None) or (b is not None and np.array_equal(a, b)) for a, b in zip(B0, B)))
    else:
        s.take_step(dt)
    want = [a - dt * b if b is not None else a for a, b in zip(snap[0], B0[1:])]
    mon.le("projection:step", max(abs(a - b).max() for a, b in zip(want, s.A[1:s.N + 1])), 1e-8)
    # a second update and projection from the stepped state
    if p22.cond(sand.View.of(s)) < 1e6:
        s.update()
        H = oracle(s, hL, hC, hR)
        energies(s, H, mon, hs=H.hs, what="stepped")
        tangent(s, H, mon, hs=H.hs, what="stepped")


def run_history(rng, mon):
    """Growth, quenches of window and bulk Hamiltonians, operators and steps in any order."""
    s, hL, hC, hR = ready(rng, mon, Nmax=3, Lmax=1 + int(rng.rand() < .3))
    dt0 = .02 / (1 + abs(hL).max())
    L, q, hs = s.uni_l.L, s.q[1], s.ham_sites
    hC = list(hC)
    for step in range(6):
        k = rng.randint(6)
        if k == 0 and s.N < 5:
            m = 1
            s.grow_left(m)
            hC = [hL] * (m * L) + hC
            mon.event("grow-left")
        elif k == 1 and s.N < 5:
            s.grow_right(1)
            hC = hC + [hR] * L
            mon.event("grow-right")
        elif k == 2:
            n = rng.randint(s.N + 1)
            hC[n] = rand_ham(rng, q, hs)
            s.ham = list(hC)
            mon.event("quench-window")
        elif k == 3:
            s.apply_op_1s(np.eye(q) + .3 * gen.cplx(rng, q, q), int(rng.randint(1, s.N + 1)), do_update=bool(rng.randint(2)))
            mon.event("operator")
        elif k == 4:
            hL = hL + .3 * rand_ham(rng, q, hs)
            hR = hL if s.uni_r.ham is None else hR + .2 * rand_ham(rng, q, hs)
            s.uni_l.set_ham(hL)
            s.uni_r.set_ham(hR)
            mon.event("quench-bulk")
        if rng.randint(2):
            s.update(restore_CF=bool(rng.randint(3)))
            dt = dt0 * [1, 1j][rng.randint(2)]
            (s.take_step if rng.randint(2) else s.take_step_RK4)(dt)
            mon.event("step")
    mon.info["N"] = s.N
    V = sand.View.of(s)
    p22.check_cond(V)
    before = p22.rdms(V, 1 - L, s.N + L)
    s.update()
    H = oracle(s, hL, hC, hR)
    mon.le("history:state", p22.dist(before, p22.rdms(H, 1 - L, s.N + L)), 1e-7)
    p22.env_rules(s, Sub(mon, "history:env"), H)
    mon.state(H.vec())
    energies(s, H, mon, what="history")
    tangent(s, H, mon, what="history")


class Sub(object):
    """Redirects every rule to one name."""

    def __init__(self, mon, rule):
        self.mon, self.rule = mon, rule

    def le(self, rule, *a, **k):
        self.mon.le(self.rule, *a, **dict(k, sub=rule))

    def event(self, *a):
        self.mon.event(*a)


def run_flow(rng, mon):
    s, hL, hC, hR = ready(rng, mon, Nmax=4, Lmax=1 + int(rng.rand() < .3), Dmax=3)
    if rng.randint(3) == 0 and s.N < 4:
        s.grow_right(1)
        hC = list(hC) + [hR] * s.uni_r.L
        s.update()
    H = oracle(s, hL, hC, hR)
    AC0 = [np.array(a) for a in H.AC]
    d = [1., 1j, -1j, np.exp(2j * np.pi * rng.rand())][rng.randint(4)]
    n2 = H.norm2(H.psi())
    B0 = s.calc_B()
    eta = abs(s.eta)
    h = .3 / (1 + abs(s.dH_expect - 0) / 10 + eta + sum(np.linalg.norm(x.reshape(H.q ** H.hs, -1), 2) for x in hC))
    dist = lambda u, w: dn.ray_distance(H.vec(u), H.vec(w))
    tens = lambda t: [np.array(t.A[n]) for n in range(1, t.N + 1)]
    for attempt in range(6):
        errs = {"euler": [], "rk4": []}
        for f in (1., .5, .25):
            ref = H.flow(AC0, h * f * d, 3)
            for nm in errs:
                t = copy.deepcopy(s)
                (t.take_step if nm == "euler" else t.take_step_RK4)(h * f * d)
                mon.event("step:" + nm)
                errs[nm].append(dist(ref, tens(t)))
            if f == 1. and errs["rk4"][0] > 1e-5:
                break
        else:
            break
        h *= .6
    else:
        mon.true("flow:rk4-error", False, errs=errs["rk4"], d=str(d))
        return
    mon.state(H.vec(ref))
    for nm, p in (("euler", 2), ("rk4", 5)):
        e = errs[nm]
        if e[0] > 1e-7:
            mon.le("flow:%s-order" % nm, max(0, 2 * p - np.log2(e[0] / max(e[2], 1e-16))) if e[2] > 1e-9 else 0., 1.1, errs=e, d=str(d))
        else:
            mon.event(nm + ":below-noise")
    mon.le("flow:rk4-error", errs["rk4"][2], 1e-7, errs=errs["rk4"])
    u = copy.deepcopy(s)
    B = u.calc_B()
    B1 = [None if b is None else b.copy() for b in B]
    u.take_step_RK4(h * d, B_i=B)
    t = copy.deepcopy(s)
    t.take_step_RK4(h * d)
    mon.le("flow:B_i", max(abs(a - b).max() for a, b in zip(tens(t), tens(u))), 1e-9)
    mon.true("projection:B-unmutated", all((a is None and b is None) or (b is not None and np.array_equal(a, b)) for a, b in zip(B1, B)),
             what="RK4")
    # several steps with canonical updates between: energy conserved / decreasing
    E0 = H.energy()[0].real
    t = copy.deepcopy(s)
    n = 4
    for i in range(n):
        t.update(restore_CF=bool(i % 2))
        t.take_step_RK4(h / 4 * d)
    t.update()
    G = oracle(t, hL, hC, hR)
    ref = H.flow(AC0, h / 4 * d * n, 8)
    L = s.uni_l.L
    mon.le("flow:steps", p22.dist(p22.rdms(G, 1 - L, s.N + L), p22.rdms(H.with_window(ref), 1 - L, s.N + L)), 1e-6, n=n, d=str(d))
    E1 = G.energy()[0].real
    mon.le("energy:excess", abs(t.dH_expect - G.energy()[0]), 1e-6, what="after steps")
    if abs(d.real if isinstance(d, complex) else d) < 1e-12:
        mon.le("flow:conserved", abs(E1 - E0), 1e-6, E0=E0)
    elif d == 1. and eta > 1e-2:
        mon.true("flow:decreasing", E1 < E0, E0=E0, E1=E1)


def two_site(H, n):
    """Component of the force at sites n, n + 1 orthogonal to changes of either site: <left null, right null| h psi>."""
    x = H.psi()
    y, _ = H.hpsi(x)
    q, N = H.q, H.N
    AC = H.AC
    # Gram matrices left of n and right of n + 1
    Lp = np.eye(H.DL, dtype=complex)
    for a in AC[:n - 1]:
        Lp = np.einsum("pa,sab->psb", Lp, a).reshape(-1, a.shape[2])
    Rp = np.eye(H.DR, dtype=complex)
    for a in AC[:n:-1]:
        Rp = np.einsum("sab,bQ->asQ", a, Rp).reshape(a.shape[1], -1)
    a1, a2 = AC[n - 1], AC[n]
    D0, D1, D2 = a1.shape[1], a1.shape[2], a2.shape[2]
    # functional of two-site tensors: W[a,s,t,b] = <Lp a, s, t, b Rp| H psi>
    Y = y.reshape(Lp.shape[0], q * q, Rp.shape[1]) if False else y.reshape(H.DL * q ** (n - 1), q * q, q ** (N - n - 1) * H.DR)
    W = np.einsum("pa,psQ,bQ->asb", Lp.conj(), Y, Rp.conj())
    G0 = np.einsum("pa,pc->ac", Lp.conj(), np.einsum("ca,asb->csb", H.lm, Lp.reshape(H.DL, -1, D0)).reshape(-1, D0))
    G2 = np.einsum("bQ,dQ->bd", Rp.conj(), np.einsum("asb,bd->asd", Rp.reshape(D2, -1, H.DR), H.rm).reshape(D2, -1))
    l0, r2 = sandh.hroot(G0), sandh.hroot(G2)
    li, ri = np.linalg.inv(l0), np.linalg.inv(r2)
    # orthonormal frames
    M = np.einsum("xa,asb,by->xsy", li, W, ri.T).reshape(D0 * q, q * D2)
    U1 = np.einsum("xa,sab->xsb", l0, a1).reshape(D0 * q, D1)
    U2 = np.einsum("tbc,cy->bty", a2, r2.T).reshape(D1, q * D2)
    P1 = np.eye(D0 * q) - U1.dot(np.linalg.pinv(U1))
    P2 = np.eye(q * D2) - np.linalg.pinv(U2).dot(U2)
    X = P1.dot(M).dot(P2)
    return X, (li, ri)


def run_dynexp(rng, mon):
    s, hL, hC, hR = ready(rng, mon, Nmax=4, Dmax=2)
    if s.N < 2:
        s.grow_left(1)
        hC = [hL] * s.uni_l.L + list(hC)
        s.update()
    if s.N > 5:
        raise core.Inconclusive("too long")
    if rng.randint(2):
        s.update(restore_CF=False)
    H = oracle(s, hL, hC, hR)
    n2 = H.norm2(H.psi())
    mon.state(H.vec())
    want = [0] + [np.linalg.norm(two_site(H, n)[0]) ** 2 / n2 for n in range(1, s.N)]
    got = s.compute_projection_error()
    mon.event("projection-error")
    for n in range(1, s.N):
        mon.le("expand:error", abs(got[n] - want[n]) / (1 + want[n]), 1e-7, n=n, hs=H.hs)
    # step with expansion: first order part orthogonal to the one-site tangent space
    Dold = list(s.D)
    dD_max = [64, 64, 1, 2][rng.randint(4)]
    D_max = [64, 64, max(Dold) + 1][rng.randint(3)]
    svt = [1e-12, 1e-2][rng.randint(2)]
    dt = 1e-5 * [1, 1j, np.exp(2j * np.pi * rng.rand())][rng.randint(3)]
    t = copy.deepcopy(s)
    dD = t.take_step(dt, dynexp=True, dD_max=dD_max, D_max=D_max, sv_tol=svt)
    mon.event("expand")
    for n in range(1, s.N):
        mon.true("expand:shape", t.D[n] == Dold[n] + dD[n] and t.D[n] <= max(D_max, Dold[n]) and dD[n] <= dD_max, n=n, dD=str(dD))
    for n in range(1, s.N + 1):
        mon.true("expand:shape", t.A[n].shape == (t.q[n], t.D[n - 1], t.D[n]), n=n, shape=str(t.A[n].shape))
    mon.true("expand:shape", t.D[0] == Dold[0] and t.D[s.N] == Dold[s.N])
    x0, x1 = H.psi(), H.psi([np.array(t.A[n]) for n in range(1, t.N + 1)])
    dx = H.root(x1 - x0) / -dt
    B = s.calc_B()
    mT, F, _, _ = H.gram_force()
    dx1 = mT.dot(H.flat(B[1:]))
    # the best possible two-site part, truncated as requested
    tot = 0
    unc = 0
    for n in range(1, s.N):
        X, (li, ri) = two_site(H, n)
        U, w, Vh = np.linalg.svd(X)
        k = min(int((w / np.sqrt(n2) > svt).sum()), dD_max, D_max - Dold[n])
        k = max(k, 0)
        if k < len(w) and k and abs(w[k - 1] - w[k]) < 1e-6 * w[0] or np.any(abs(w / np.sqrt(n2) / svt - 1) < 1e-3):
            raise core.Inconclusive("degenerate truncation")
        mon.true("expand:count", dD[n] == k, n=n, k=k, dD=int(dD[n]), w=str(w))
        Xk = (U[:, :k] * w[:k]).dot(Vh[:k]) if k else np.zeros_like(X)
        D0, D2 = H.AC[n - 1].shape[1], H.AC[n].shape[2]
        b = np.einsum("ax,xsy,yb->asb", li, Xk.reshape(D0, -1, D2), ri.T)
        q = H.q
        full = H.psi(H.AC[:n - 1]) if n > 1 else np.eye(H.DL, dtype=complex).reshape(H.DL, 1, H.DL)
        full = np.einsum("psa,atb->pstb", full, b).reshape(H.DL, -1, D2)
        for a in H.AC[n + 1:]:
            full = np.einsum("psa,tab->pstb", full, a).reshape(H.DL, -1, a.shape[2])
        tot = tot + H.root(full)
    mon.le("expand:direction", np.linalg.norm(dx - dx1 - tot) / np.sqrt(n2), 3e-3 * (1 + np.linalg.norm(tot) / np.sqrt(n2)), dD=str(dD),
           size=float(np.linalg.norm(tot)))
    # the expanded state is usable
    V = sand.View.of(t)
    t2 = copy.deepcopy(s)
    t2.take_step(3e-2 * dt / abs(dt), dynexp=True, dD_max=dD_max, D_max=D_max, sv_tol=svt)
    V = sand.View.of(t2)
    if p22.cond(V) < 1e9:
        L = s.uni_l.L
        before = p22.rdms(V, 1 - L, s.N + L)
        t2.update()
        mon.le("expand:update", p22.dist(before, p22.rdms(sand.View.of(t2), 1 - L, s.N + L)), 1e-6)
        if p22.cond(sand.View.of(t2)) < 1e6:
            H2 = oracle(t2, hL, hC, hR)
            energies(t2, H2, mon, what="expanded")
            tangent(t2, H2, mon, what="expanded")


def run_frommps(rng, mon):
    """Evolution of a window state made from plain tensors."""
    AL = p22.bulk(rng, mon, Dmax=3)
    AR = p22.bulk(rng, mon, Dmax=3) if rng.randint(2) else p22.regauge(rng, AL)
    q, hs = AL[0].shape[0], 2 + int(rng.randint(2))
    Lc = len(AL) * len(AR)
    N = Lc * int(rng.randint(1, max(1, 4 // Lc) + 1))
    Ds = [AL[0].shape[1]] + [int(rng.randint(1, 4)) for _ in range(N - 1)] + [AR[0].shape[1]]
    for n in range(1, N):
        Ds[n] = min(Ds[n], Ds[n - 1] * q)
    for n in range(N - 1, 0, -1):
        Ds[n] = min(Ds[n], Ds[n + 1] * q)
    if max(max(Ds[n - 1] / float(Ds[n]), Ds[n] / float(Ds[n - 1])) for n in range(1, N + 1)) > q:
        return mon.event("impossible-dimensions")
    AC = [gen.cplx(rng, q, Ds[n - 1], Ds[n]) for n in range(1, N + 1)]
    p22.check_cond(sand.View(AL, AC, AR))
    hL, hR = [rand_ham(rng, q, hs) for _ in range(2)]
    hC = [rand_ham(rng, q, hs) for _ in range(N + 1)]
    m = ms.EvoMPS_MPS_Sandwich.from_tensors(AL, AC, AR)
    if rng.randint(2):
        m.update()
    V = sand.View.of(m)
    L = max(len(AL), len(AR))
    before = p22.rdms(V, 1 - L, N + L)
    snap = [np.array(m.A[n]) for n in range(1, N + 1)]
    s = ts.EvoMPS_TDVP_Sandwich.from_mps(m, hL, list(hC), hR, ham_sites=hs)
    mon.event("from_mps")
    mon.info.update(N=N, LL=len(AL), LR=len(AR), hs=hs)
    mon.nontrivial = True
    mon.le("from_mps:state", p22.dist(before, p22.rdms(sand.View.of(s), 1 - L, N + L)), 1e-8)
    H = oracle(s, hL, hC, hR)
    mon.state(H.vec())
    energies(s, H, mon, what="from_mps")
    tangent(s, H, mon, what="from_mps")
    mon.true("from_mps:source", all(np.array_equal(a, m.A[n + 1]) for n, a in enumerate(snap)))
    s.take_step(.02)
    mon.true("from_mps:source", all(np.array_equal(a, m.A[n + 1]) for n, a in enumerate(snap)), what="step")
    s.update()
    H = oracle(s, hL, hC, hR)
    energies(s, H, mon, what="from_mps+step")
    tangent(s, H, mon, what="from_mps+step")
    try:
        ts.EvoMPS_TDVP_Sandwich.from_mps(m, hL, hC[:-1], hR, ham_sites=hs)
    except ValueError:
        mon.event("refused")
    else:
        mon.true("from_mps:refuse", False, what="wrong number of terms")


def run_go(rng, mon):
    """The integration loop: what it returns and writes against the states it went through."""
    import os
    import shutil
    import tempfile
    s, hL, hC, hR = ready(rng, mon, Nmax=4, Dmax=2)
    q, L, hs = s.q[1], s.uni_l.L, s.ham_sites
    steps, every = int(rng.randint(2, 6)), int(rng.randint(1, 3))
    start = int(rng.randint(2))
    tau = .02 / (1 + abs(hL).max()) * [1, 1j][rng.randint(2)]
    rk4 = bool(rng.randint(2))
    grow = bool(rng.randint(2))
    op = dn.rand_op(rng, [q], herm=True)
    other = copy.deepcopy(s) if rng.randint(2) else None
    log = []
    upd, st, st4 = s.update, s.take_step, s.take_step_RK4
    depth = [0]

    def update(*a, **k):
        r = upd(*a, **k)
        if not depth[0]:
            log.append((sand.View.of(s), s.N, np.array(s.h_expect), abs(s.eta), np.array(s.eta_sq), s.dH_expect,
                        (s.grown_left, s.grown_right)))
        return r
    calls = []
    etas = []

    def step(f, name):
        def g(dt, *a, **k):
            calls.append((name, dt))
            depth[0] += 1
            H = oracle(s, hC0[0], hC0[1], hC0[2])
            x = [np.array(s.A[n]) for n in range(1, s.N + 1)]
            try:
                r = f(dt, *a, **k)
            finally:
                depth[0] -= 1
            y = [np.array(s.A[n]) for n in range(1, s.N + 1)]
            ref = H.flow(x, dt, 2)
            moved = dn.ray_distance(H.vec(x), H.vec(ref))
            mon.le("go:step", dn.ray_distance(H.vec(ref), H.vec(y)), (.15 if name == "euler" else 1e-3) * moved + 1e-7, name=name)
            etas.append(np.array(s.eta_sq))
            return r
        return g
    hC0 = [hL, list(hC), hR]
    gl, gr = s.grow_left, s.grow_right

    def grow_left(m):
        gl(m)
        hC0[1] = [hL] * (m * L) + hC0[1]
        mon.event("go:grow")

    def grow_right(m):
        gr(m)
        hC0[1] = hC0[1] + [hR] * (m * L)
        mon.event("go:grow")
    s.update, s.take_step, s.take_step_RK4 = update, step(st, "euler"), step(st4, "rk4")
    s.grow_left, s.grow_right = grow_left, grow_right
    if grow:
        s.eta_sq_uni = np.array([abs(rng.randn()) * .01])
    tmp = tempfile.mkdtemp(prefix="mon-P23-")
    try:
        f = dict((k, os.path.join(tmp, k)) for k in ("op", "en", "S", "eta", "ol", "csv", "state.npy"))
        data, endata, Sdata, oldata = ts.go(s, tau, steps, RK4=rk4, autogrow=grow, autogrow_amount=1, autogrow_max_N=5, op=op,
                                            op_every=every, op_save_as=f["op"], en_save_as=f["en"], entropy_save_as=f["S"],
                                            eta_save_as=f["eta"], overlap_with=other, overlap_save_as=f["ol"], csv_file=f["csv"],
                                            save_every=2, save_as=f["state.npy"], counter_start=start, append_saved=bool(rng.randint(2)))
        read = lambda k: [[float(x) for x in line.split("\t")] for line in open(f[k])]
        files = dict((k, read(k)) for k in ("op", "en", "S", "eta", "ol") if os.path.exists(f[k]))
        csv = [line.rstrip("\n").split("\t") for line in open(f["csv"])]
    finally:
        shutil.rmtree(tmp)
    mon.event("go")
    mon.info.update(steps=steps, every=every, start=start, rk4=rk4, grow=grow, N1=s.N)
    n = steps + 1 - start
    mon.true("go:steps", len(log) == n and [c[0] for c in calls] == ["rk4" if rk4 else "euler"] * (n - 1)
             and all(c[1] == tau for c in calls), calls=len(calls), n=n)
    mon.state(log[-1][0].rdm(1, min(4, s.N)))
    # every recorded row against the state recorded at that time, aligned to the final window
    def align(rows, want, rule, tol, idx):
        mon.true("go:records", len(rows) == len(want), rule_=rule, got=len(rows), want=len(want))
        for row, (i, w) in zip(rows, want):
            gl_, gr_ = log[-1][6][0] - log[i][6][0], log[-1][6][1] - log[i][6][1]
            w = [0.] * gl_ + list(w) + [0.] * gr_
            mon.true("go:records", len(row) == len(w), rule_=rule, got=len(row), want=len(w), i=i)
            if len(row) == len(w):
                mon.le("go:records", np.abs(np.array(row) - w).max(), tol, rule_=rule, i=i)
    rec = [i for i in range(n) if (i + start) % every == 0]
    wop = [(i, [log[i][0].expect(op, j).real for j in range(-10, log[i][1] + 10)]) for i in rec]
    align(data, wop, "op", 1e-7, rec)
    align(files["op"], wop, "op file", 1e-7, rec)
    wen = [(i, log[i][2].real) for i in range(n)]
    if hs == 2:
        align(endata, wen, "energies", 1e-12, None)
        align(files["en"], wen, "energies file", 1e-9, None)
    align(files["eta"], [(i, log[i][4].real) for i in range(n)], "eta file", 1e-12, None)

    def ent(V, N):
        out = []
        for b in range(N + 1):
            w = V.schmidt_sq(b)
            w = w[w > 1e-14]
            out.append(-(w * np.log2(w)).sum())
        return out
    wS = [(i, ent(log[i][0], log[i][1])) for i in range(n)]
    align(Sdata, wS, "entropy", 1e-6, None)
    align(files["S"], wS, "entropy file", 1e-6, None)
    if other is not None:
        mon.true("go:records", len(oldata) == len(rec) and len(files["ol"]) == len(rec), rule_="overlap")
        if oldata:
            last = [r for r in rec][-1]
            if last == n - 1:
                mon.le("go:records", abs(oldata[-1][0] - abs(s.overlap(other))), 1e-7, rule_="overlap")
            if start == 0:
                mon.le("go:records", abs(oldata[0][0] - 1), 1e-7, rule_="overlap of the initial state")
    mon.true("go:records", len(csv) == n + 1, rule_="csv", got=len(csv), want=n + 1)
    for i, line in enumerate(csv[1:]):
        mon.true("go:records", int(line[0]) == i + start and (int(line[6]), int(line[7])) == tuple(log[i][6]), rule_="csv", line=str(line))
        mon.le("go:records", abs(float(line[4]) - log[i][5].real), 1e-9, rule_="csv energy")
        mon.le("go:records", abs(float(line[2]) - abs(tau) * (i + start)), 1e-12, rule_="csv time")


if __name__ == "__main__":
    sys.exit(core.main(sys.modules["__main__"], sys.argv[1:]))
