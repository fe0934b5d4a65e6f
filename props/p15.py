"""P15: uniform TDVP: energy, environments K, tangent vector, overlaps and pseudo-inverses."""
import copy
import sys
import numpy as np
from mon import core, dense as dn, uni, tang
import evoMPS.tdvp_uniform as tu

ID = "P15"
RULE = ("A case is a random unit cell with a random Hermitian Hamiltonian (2 or 3 sites; array, function or product "
        "form), a canonical form and a short history of modifications; the energy, K matrices, tangent vector and its "
        "norm, tangent-vector overlaps and pseudo-inverses are compared with dense linear algebra and with finite "
        "differences of the dense energy density; non-trivial if the tangent vector is non-zero.")
REQUIRED_RULES = ["utdvp:energy", "utdvp:K", "utdvp:K-left", "utdvp:gauge", "utdvp:gradient", "utdvp:eta",
                  "utdvp:eta-site", "utdvp:pinv", "utdvp:overlap", "utdvp:project", "utdvp:two-site-eta",
                  "utdvp:expand-step", "utdvp:step"]
ASSUMPTIONS = ["leading transfer eigenvalue separated by a relative gap > 0.05",
               "all squared Schmidt values above 1e-3 (two-site expansion: 1e-2)"]


def cases(tier, seed):
    k = 1 if tier == "quick" else 10
    rng = np.random.RandomState(seed * 41 + 15)
    out = []
    for kind, n in (("tangent", 90), ("pinv", 40), ("overlap", 40), ("twosite", 40)):
        for i in range(n * k):
            out.append({"kind": kind, "seed": int(rng.randint(1 << 30))})
    return out


def run(case, mon):
    rng = np.random.RandomState(case["seed"])
    np.random.seed(case["seed"] & 0x7fffffff)
    globals()["run_" + case["kind"]](case, rng, mon)


def rand_tdvp(rng, mon, full_rank=1e-3, **kw):
    As, U, inf = uni.draw(rng, mon, qmin=2, full_rank=full_rank, styles=['random', 'random', 'real', 'scaled'], **kw)
    L, q, D = inf["L"], inf["q"], inf["D"]
    form = ["array2", "array2", "array3", "func2", "tp"][rng.randint(5)]
    sites = 3 if form == "array3" else 2
    h = dn.rand_op(rng, [q] * sites, herm=True, real=bool(rng.randint(2)))
    tp = None
    if form == "tp":
        tp = []
        h = np.zeros([q] * 4, dtype=complex)
        for _ in range(rng.randint(1, 4)):
            a, b = dn.rand_op(rng, [q], herm=True), dn.rand_op(rng, [q], herm=True)
            tp.append([a, b])
            h = h + np.einsum('su,tv->stuv', a, b)
    ham = (lambda *a: h[tuple(int(x) for x in a)]) if form == "func2" else h
    s = tu.EvoMPS_TDVP_Uniform(D, q, ham, ham_sites=sites, L=L, do_update=False)
    for k in range(L):
        s.A[k][:] = As[k]
    s.ham_tp = tp
    s.symm_gauge = bool(rng.randint(2))
    s.sanity_checks = bool(rng.randint(2))
    mon.event("ham:" + form)
    inf["ham"] = form
    return s, h, inf


def bring(s, rng, mon):
    """Bring the state to one of the documented forms with valid environments."""
    f = ["cf", "cf", "cf", "none", "lcf"][rng.randint(5)]
    if f == "cf":
        s.update()
    elif f == "none":
        s.update(restore_CF=False)
    else:
        s.update(restore_CF=False)
        s.restore_LCF()
        s.calc_C()
        s.calc_K()
    mon.event("form:" + f)
    return f


def check_tangent(s, h, rng, mon, inf, **info):
    info = dict(inf, **info)
    T = tang.Tang(s.A)
    L, D, q = s.L, s.D, s.q
    nh = np.linalg.norm(h.reshape(q ** (h.ndim // 2), -1), 2)
    sch = min(T.U.schmidt_sq(k).min() for k in range(L))
    amp = 1 / np.sqrt(sch)
    eks = [T.U.expect(h, k) for k in range(L)]
    e = np.mean(eks)
    mon.le("utdvp:energy", abs(s.h_expect - e) / nh, 1e-8, **info)
    # environments
    l = [uni.full(x) for x in s.l]
    r = [uni.full(x) for x in s.r]
    for k in range(L):
        want = T.K_right(h, k, l, r)
        sc = max(abs(want).max(), nh * abs(r[k - 1]).max())
        mon.le("utdvp:K", abs(uni.full(s.K[k]) - want).max() / sc, 1e-7, k=k, **info)
    Kl, hl = s.calc_K_l()
    mon.le("utdvp:energy", abs(hl - e) / nh, 1e-8, left=True, **info)
    for k in range(L):
        want = T.K_left(h, k, l, r)
        sc = max(abs(want).max(), nh * abs(l[k]).max())
        mon.le("utdvp:K-left", abs(uni.full(s.K_left[k]) - want).max() / sc, 1e-7, k=k, **info)
    # tangent vector
    A0 = [a.copy() for a in s.A]
    B = s.calc_B()
    mon.true("utdvp:reads-only", all(np.array_equal(a, b) for a, b in zip(A0, s.A)))
    G = T.gram(B, B)
    eta2 = np.sum(s.eta_sq)
    mon.le("utdvp:eta", abs(G - eta2) / (nh ** 2), 1e-7, **info)
    mon.le("utdvp:eta", abs(s.eta - np.sqrt(eta2)) / nh, 1e-9, root=True, **info)
    for k in range(L):
        on = T.onsite(k, B[k], B[k])
        mon.le("utdvp:eta-site", abs(on - s.eta_sq[k]) / nh ** 2, 1e-7, k=k, **info)
        g = sum(b.dot(r[k]).dot(a.conj().T) for a, b in zip(s.A[k], B[k]))
        nb = np.sqrt(sum(np.linalg.norm(b.dot(r[k]).dot(b.conj().T)) for b in B[k])) + 1e-3 * nh * abs(s.A[k]).max()
        mon.le("utdvp:gauge", abs(g).max() / nb, 1e-7, k=k, **info)
    mon.nontrivial = abs(eta2) > 1e-12 * nh ** 2
    # energy gradient along random directions and along B
    for t in range(3):
        X = B if t == 0 else [uni.cplx(rng, *a.shape) for a in s.A]
        if t == 0 and not mon.nontrivial:
            continue
        gx = T.gram(X, B)
        d, de = tang.fd(lambda x: tang.energy([a + x * b for a, b in zip(s.A, X)], h), s.A, X)
        sc = nh * np.sqrt(abs(T.gram(X, X))) + 1e-12
        if de / sc > 1e-2:
            mon.event("derivative-not-resolved")
            continue
        mon.le("utdvp:gradient", abs(d - 2 * gx.real / L) / sc, 1e-5 + 0.5 * de / sc, direction=t, **info)
    return T, B


def run_tangent(case, rng, mon):
    s, h, inf = rand_tdvp(rng, mon)
    f = bring(s, rng, mon)
    mon.state(*s.A)
    T, B = check_tangent(s, h, rng, mon, inf, form=f)
    for step in range(rng.randint(0, 3)):
        what = ["quench", "step", "perturb", "phase", "rk4"][rng.randint(5)]
        mon.event("history:" + what)
        nh = np.linalg.norm(h)
        if what == "quench" and s.ham_tp is None:
            h = dn.rand_op(rng, [s.q] * (h.ndim // 2), herm=True)
            if rng.randint(2):
                s.ham = h
            else:
                s.set_ham(h)
                s.K[0][:] = 0
        elif what in ("step", "rk4"):
            if what == "step":
                A0 = [a.copy() for a in s.A]
                B = s.calc_B()
                dt = 0.1 / nh * np.exp(2j * np.pi * rng.rand())
                s.take_step(dt, B=B if rng.randint(2) else None)
                for k in range(s.L):
                    mon.le("utdvp:step", abs(s.A[k] - (A0[k] - dt * B[k])).max(), 1e-9 * abs(A0[k]).max() + 1e-9,
                           **inf)
            else:
                s.take_step_RK4(0.05 / nh * np.exp(2j * np.pi * rng.rand()))
        elif what == "perturb":
            for k in range(s.L):
                s.A[k] += 0.1 * abs(s.A[k]).max() * uni.cplx(rng, *s.A[k].shape)
        elif what == "phase":
            for k in range(s.L):
                s.A[k] *= np.exp(2j * np.pi * rng.rand())
        U = dn.Uniform(s.A)
        if not U.gap > 0.05 or min(U.schmidt_sq(k).min() for k in range(s.L)) < 1e-3:
            return
        f = bring(s, rng, mon)
        T, B = check_tangent(s, h, rng, mon, inf, form=f, history=what, step=step)


def run_pinv(case, rng, mon):
    s, h, inf = rand_tdvp(rng, mon)
    s.ham_tp = None
    s.update(restore_CF=bool(rng.randint(2)))
    mon.nontrivial = s.D > 1
    mon.state(*s.A)
    L, D = s.L, s.D
    E = np.eye(D * D)
    for a in s.A:
        E = E.dot(dn.site_E(a))
    l, r = uni.full(s.l[-1]), uni.full(s.r[-1])
    lv = l.T.reshape(-1)
    rv = r.reshape(-1)
    for t in range(4):
        p = [0, 0, float(rng.uniform(-np.pi, np.pi)), np.pi][rng.randint(4)]
        pseudo = p == 0 or bool(rng.randint(2))
        left = bool(rng.randint(2))
        x = uni.cplx(rng, D, D)
        x0 = x.copy()
        nx = np.linalg.norm(x)
        Q = np.eye(D * D) - np.outer(rv, lv) if pseudo else np.eye(D * D)
        M = np.eye(D * D) - np.exp(1j * p) * (E - (np.outer(rv, lv) if pseudo else 0))
        smin = np.linalg.svd(M, compute_uv=False).min()
        if smin < 1e-2:
            continue
        # the part of x along the fixed point is arbitrary in the pseudo-inverse: project it out before or after
        pre = pseudo and bool(rng.randint(2))
        QQ = Q.conj().T if left else Q
        MM = M.conj().T if left else M       # left: acts on the bra <x|, returned as a ket
        if pre:
            x = QQ.dot(x.reshape(-1)).reshape(D, D)
            x0 = x.copy()
        want = np.linalg.solve(MM, QQ.dot(x.reshape(-1))).reshape(D, D)
        solver = [None, __import__("scipy.sparse.linalg").sparse.linalg.lgmres,
                  __import__("scipy.sparse.linalg").sparse.linalg.gmres][rng.randint(3)]
        y = s.calc_PPinv(x, p=p, left=left, pseudo=pseudo, solver=solver)
        yv = y.reshape(-1)
        if pseudo and not pre:
            yv = QQ.dot(yv)
        sc = np.linalg.norm(want) + nx
        mon.event("pinv:%s%s%s" % ("l" if left else "r", " p" if p else "", " pseudo" if pseudo else ""))
        mon.le("utdvp:pinv", np.linalg.norm(yv - want.reshape(-1)) / sc * smin, 1e-7, left=left, p=p, pseudo=pseudo,
               solver=str(solver), **inf)
        mon.true("utdvp:pinv-arg", np.array_equal(x, x0))


def run_overlap(case, rng, mon):
    s, h, inf = rand_tdvp(rng, mon)
    s.update(restore_CF=bool(rng.randint(2)))
    s.calc_B()
    mon.nontrivial = s.D > 1
    mon.state(*s.A)
    T = tang.Tang(s.A)
    X = [uni.cplx(rng, *a.shape) for a in s.A]
    Y = [uni.cplx(rng, *a.shape) for a in s.A]
    p = [0., 0., float(rng.uniform(-np.pi, np.pi))][rng.randint(3)]
    nx, ny = np.sqrt(abs(T.gram(X, X, p))), np.sqrt(abs(T.gram(Y, Y, p)))
    sc = np.sqrt(abs(sum(T.onsite(k, X[k], X[k]) for k in range(s.L))
                     * sum(T.onsite(k, Y[k], Y[k]) for k in range(s.L)))) + nx * ny
    if p == 0 or abs(np.exp(1j * p * s.L) - 1) > 1e-2:
        got = s._B_overlap(X, Y, p=p)
        # <Y|X>: first argument is the ket
        mon.le("utdvp:overlap", abs(got - T.gram(Y, X, p)) / sc, 1e-6, p=p, **inf)
    # projection on the gauge-fixed representative of the same tangent vector (up to the state itself)
    Xg, xg = s._B_to_B_GF(X, p=p)
    r = [uni.full(x) for x in s.r]
    for k in range(s.L):
        g = sum(b.dot(r[k]).dot(a.conj().T) for a, b in zip(s.A[k], Xg[k]))
        mon.le("utdvp:project", abs(g).max() / (abs(Xg[k]).max() * abs(r[k]).max() * abs(s.A[k]).max() + 1e-9), 1e-7,
               gauge=True, **inf)
    if s.L == 1 or p == 0:
        mon.le("utdvp:project", abs(T.gram(Y, Xg, p) - T.gram(Y, X, p)) / sc, 1e-6, p=p, **inf)
        mon.le("utdvp:project", abs(sum(np.vdot(a, a) for a in xg) - T.gram(X, X, p)) / nx ** 2, 1e-6, norm=True, p=p,
               **inf)


def run_twosite(case, rng, mon):
    s, h, inf = rand_tdvp(rng, mon, full_rank=1e-2, Dmax=4)
    s.update(restore_CF=bool(rng.rand() < 0.8))
    mon.state(*s.A)
    L, D, q = s.L, s.D, s.q
    T = tang.Tang(s.A)
    nh = np.linalg.norm(h.reshape(q ** (h.ndim // 2), -1), 2)
    B = s.calc_B()
    eta2 = np.sum(s.eta_sq).real
    want = T.two_site_norms(h)
    full = (q - 1) * D
    dD = full if rng.rand() < 0.6 else int(rng.randint(1, full + 1))
    BB1, BB2, eBB = s.calc_B_2s(dD_max=dD)
    mon.nontrivial = sum(want) > 1e-10 * nh ** 2
    for k in range(L):
        mon.le("utdvp:two-site-eta", abs(eBB[k] - want[k]) / nh ** 2, 1e-7, k=k, **inf)
    mon.le("utdvp:two-site-eta", abs(s.etaBB - np.sqrt(sum(want))) / nh, 1e-6, total=True, **inf)
    # an expanding imaginary time step lowers the energy by 2 (eta^2 + captured etaBB^2) dtau / L to first order
    e0 = np.mean([T.U.expect(h, k) for k in range(L)]).real
    cap = [{}, {"D_max": 1000}][rng.randint(2)]

    def e(dt):
        t = copy.deepcopy(s)
        t.take_step(dt, dynexp=True, dD_max=dD, **cap)
        return tang.energy(t.A, h), t
    e1, t = e(1e-3 / nh)
    mon.true("utdvp:expand-D", t.D == D + min(dD, full) and t.A[0].shape == (q, t.D, t.D), got=t.D, D0=D, dD=dD)
    x = 1e-3 / nh
    f = [(e(x / 4 ** j)[0] - e0) / (x / 4 ** j) for j in range(3)]
    # the error is a series in powers of dtau
    g1 = [(4 * f[j + 1] - f[j]) / 3 for j in range(2)]
    slope = (16 * g1[1] - g1[0]) / 15
    if dD == full:
        ref = -2 * (eta2 + sum(want)) / L
        mon.le("utdvp:expand-step", abs(slope - ref) / nh ** 2, 1e-4, slope=slope, want=ref, **inf)
    else:
        # at least the one-site part, at most all
        mon.true("utdvp:expand-step-partial", -2 * (eta2 + sum(want)) / L - 1e-4 * nh ** 2 <= slope
                 <= -2 * eta2 / L + 1e-4 * nh ** 2, slope=slope, eta2=eta2, bb=sum(want), **inf)


if __name__ == "__main__":
    sys.exit(core.main(sys.modules["__main__"], sys.argv[1:]))
