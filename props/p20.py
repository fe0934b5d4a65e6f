"""P20: excitations of uniform states: tangent-space effective Hamiltonian, spectra, local profiles."""
import copy
import sys
import numpy as np
import scipy.sparse.linalg as las
from mon import core, gen, dense as dn, uni, excite
import evoMPS.tdvp_uniform as tu

ID = "P20"
RULE = ("A case is a random uniform state with a random Hamiltonian (2 or 3 sites; array, function or product form), for "
        "domain walls with a symmetry-related second state, and a momentum; the effective Hamiltonian, its spectrum or the "
        "local profile of an excitation is compared with explicit sums; non-trivial if the excitation space is non-empty.")
REQUIRED_RULES = ["exc:norm", "exc:gauge", "exc:matrix", "exc:hermitian", "exc:brute", "exc:eigenvalues", "exc:eigenvectors",
                  "exc:retry", "exc:nontriv-matrix", "exc:nontriv-eigenvalues", "exc:tangent-1s", "exc:tangent-2s",
                  "exc:tangent-corr", "exc:state-unchanged"]
ASSUMPTIONS = ["one-site unit cells (the only ones the code accepts); for domain walls the second state is the image of the "
               "first under a symmetry of the Hamiltonian, so that both have the same energy density"]


def cases(tier, seed):
    k = 1 if tier == "quick" else 10
    rng = np.random.RandomState(seed * 43 + 20)
    return [{"kind": kind, "seed": int(rng.randint(1 << 30)), "cost": c}
            for kind, n, c in (("triv", 60, 3), ("nontriv", 40, 3), ("tangent", 40, 1), ("retry", 8, 1)) for _ in range(n * k)]


def rand_state(rng, mon, wall=False):
    As, U, inf = uni.draw(rng, mon, Lmax=1, qmin=2, Dmax=5, full_rank=1e-3, gap=0.1, styles=["random", "random", "real", "scaled"])
    q, D = inf["q"], inf["D"]
    form = ["array2", "array3", "func2", "tp"][rng.randint(4)]
    hs = 3 if form == "array3" else 2
    X = None
    if wall:
        V = np.linalg.qr(gen.cplx(rng, q, q))[0]
        sg = np.ones(q)
        sg[rng.randint(q)] = -1
        X = (V * sg).dot(V.conj().T)
    tp = None
    if form == "tp":
        tp = []
        for _ in range(rng.randint(1, 4)):
            a, b = dn.rand_op(rng, [q], herm=True), dn.rand_op(rng, [q], herm=True)
            tp.append([a, b])
            if wall:
                tp.append([X.dot(a).dot(X), X.dot(b).dot(X)])
        h = sum(np.einsum("su,tv->stuv", a, b) for a, b in tp)
    else:
        h = dn.rand_op(rng, [q] * hs, herm=True, real=bool(rng.randint(2)) and not wall)
        if wall:
            XX = X
            for _ in range(hs - 1):
                XX = np.kron(XX, X)
            m = h.reshape(q ** hs, q ** hs)
            h = ((m + XX.dot(m).dot(XX)) / 2).reshape(h.shape)
    ham = (lambda *a: h[tuple(int(x) for x in a)]) if form == "func2" else h

    def build(A):
        s = tu.EvoMPS_TDVP_Uniform(D, q, ham, ham_sites=hs, do_update=False)
        s.A[0][:] = A
        s.ham_tp = copy.deepcopy(tp)
        s.symm_gauge = symm
        s.sanity_checks = sane
        s.update()
        return s
    symm, sane = bool(rng.randint(2)), bool(rng.randint(2))
    s = build(As[0])
    inf["ham"] = form
    inf["symm"] = symm
    mon.event("ham:" + form)
    d = None
    if wall:
        g = np.linalg.qr(gen.cplx(rng, D, D))[0] + 0.2 * gen.cplx(rng, D, D) / D
        d = build(np.einsum("st,ab,tbc,cd->sad", X, g, As[0], np.linalg.inv(g)) * np.exp(2j * np.pi * rng.rand()))
    return s, d, h, inf


def reach(A, A_, mon):
    """How many sites away from the excitation still matter."""
    T = excite.word_map([A_], [A])
    ev = np.sort(abs(np.linalg.eigvals(T)))[::-1]
    T1 = np.sort(abs(np.linalg.eigvals(excite.word_map([A], [A]))))[::-1]
    same = A is A_
    lam = max(ev[1] if same and len(ev) > 1 else (0 if same else ev[0]), T1[1] if len(T1) > 1 else 0)
    if lam > 0.97:
        raise core.Inconclusive("long correlation length")
    return int(np.ceil(np.log(1e-14) / np.log(max(lam, 1e-3)))) + 6


def judge_matrix(op, s, d, h, p, rng, mon, rule, inf):
    """Matrix elements of the effective Hamiltonian on random vectors."""
    same = d is s
    A, A_ = s.A[0], d.A[0]
    l, r = uni.full(s.l[0]), uni.full(d.r[0])
    D, q = s.D, s.q
    n = (q - 1) * D * D
    nh = np.linalg.norm(h.reshape(q ** (h.ndim // 2), -1), 2)
    R = reach(A, A if same else A_, mon)
    e = float(np.real(dn.Uniform([A]).expect(h, 0)))
    sch = max(abs(np.linalg.inv(l)).max() * abs(l).max(), abs(np.linalg.inv(r)).max() * abs(r).max())
    tol = 1e-8 * max(1., sch ** 0.5) / (1 - 10 ** (-14. / R)) * 0.1
    info = dict(inf, p=p, R=R, cnd=sch)
    for _ in range(2):
        x, y = [gen.cplx(rng, n) / np.sqrt(n) for _ in range(2)]
        Bx, By = [d.get_B_from_x(z.reshape(D, (q - 1) * D), d.Vsh[0], s.l_sqrt_i[0], d.r_sqrt_i[0]) for z in (x, y)]
        mon.le("exc:norm", abs(excite.overlap(l, r, Bx, By) - np.vdot(y, x)), 1e-9 * sch, **info)
        g = np.einsum("sab,bc,sdc->ad", Bx, r, A_.conj())
        mon.le("exc:gauge", abs(g).max() / (abs(Bx).max() * abs(r).max() * abs(A_).max()), 1e-9, **info)
        x0 = x.copy()
        Hx = op.matvec(x)
        Hy = op.matvec(y)
        mon.true("arguments-unchanged", np.array_equal(x, x0))
        want = excite.eff(A, A_, l, r, Bx, By, h, e, p, R)
        mon.le(rule, abs(np.vdot(y, Hx) - want) / nh, tol, what="off-diagonal", **info)
        want = excite.eff(A, A_, l, r, Bx, Bx, h, e, p, R)
        mon.le(rule, abs(np.vdot(x, Hx) - want) / nh, tol, what="diagonal", **info)
        mon.le("exc:hermitian", abs(np.vdot(y, Hx) - np.vdot(Hy, x)) / nh, tol, **info)
        mon.event("matrix-element", 2)
    return tol, nh


def spectra(f_brute, f_iter, n, rng, mon, rule, tol, nh, inf, p, brute_rule="exc:brute"):
    (evals, vecs), H = f_brute()
    mon.le(brute_rule, abs(H - H.conj().T).max() / nh, tol * 10, **inf)
    w = np.linalg.eigvalsh((H + H.conj().T) / 2)
    mon.le(brute_rule, abs(np.sort(evals) - w).max() / nh, tol * 10, what="eigenvalues", **inf)
    mon.le(brute_rule, abs(H.dot(vecs) - vecs * evals).max() / nh, tol * 10, what="eigenvectors", **inf)
    if n < 4:
        return
    nev = int(rng.randint(1, min(4, n - 1)))
    got, ev = f_iter(nev)
    want = w[np.argsort(abs(w))][:nev]
    sep = np.sort(abs(w))
    # the set of nev smallest is well defined only if the next one is clearly larger
    if nev < n and sep[nev] - sep[nev - 1] < 1e-6 * nh:
        return mon.event("degenerate-selection")
    mon.le(rule, abs(np.sort(got) - np.sort(want)).max() / nh, 1e-7, n=n, nev=nev, p=p, **inf)
    mon.le("exc:eigenvectors", abs(H.dot(ev) - ev * got).max() / nh, 1e-6, n=n, nev=nev, **inf)
    mon.le("exc:eigenvectors", abs(ev.conj().T.dot(ev) - np.eye(nev)).max(), 1e-8, what="orthonormal", **inf)


def momentum(rng):
    return [0., np.pi, float(rng.uniform(-np.pi, np.pi)), float(rng.uniform(-np.pi, np.pi))][rng.randint(4)]


def run(case, mon):
    globals()["run_" + case["kind"]](case, np.random.RandomState(case["seed"]), mon)


def run_triv(case, rng, mon):
    s, _, h, inf = rand_state(rng, mon)
    p = momentum(rng)
    U0 = dn.Uniform(s.A)
    n = (s.q - 1) * s.D ** 2
    mon.nontrivial = n > 0
    mon.state(s.A[0])
    op = s._prepare_excite_op_top_triv(p)
    tol, nh = judge_matrix(op, s, s, h, p, rng, mon, "exc:matrix", inf)
    if n <= 24:
        spectra(lambda: s.excite_top_triv_brute(p, return_eigenvectors=True, return_H=True),
                lambda nev: s.excite_top_triv(p, nev=nev, return_eigenvectors=True, ncv=min(n, max(20, 2 * nev + 1))),
                n, rng, mon, "exc:eigenvalues", tol, nh, inf, p)
        plain = s.excite_top_triv_brute(p)
        mon.le("exc:brute", np.abs(np.sort(plain) - np.sort(s.excite_top_triv_brute(p, return_H=True)[0])).max() / nh, 1e-7,
               what="options", **inf)
    mon.le("exc:state-unchanged", uni.state_distance(U0, dn.Uniform(s.A)), 1e-10, **inf)


def run_nontriv(case, rng, mon):
    s, d, h, inf = rand_state(rng, mon, wall=True)
    p = momentum(rng)
    U0, V0 = dn.Uniform(s.A), dn.Uniform(d.A)
    Ad = d.A[0].copy()
    n = (s.q - 1) * s.D ** 2
    mon.nontrivial = n > 0
    mon.state(s.A[0], d.A[0])
    align = rng.rand() < 0.7
    ev = np.sort(abs(np.linalg.eigvals(excite.word_map([s.A[0]], [d.A[0]]))))[::-1]
    if len(ev) > 1 and ev[0] - ev[1] < 1e-4:
        mon.event("ambiguous-phase")     # e.g. a complex pair: either may be aligned
        align = False
    op = s._prepare_excite_op_top_nontriv(d, p, phase_align=align)
    if align:
        ev = np.linalg.eigvals(excite.word_map([s.A[0]], [d.A[0]]))
        j = np.argmax(abs(ev))
        if np.sum(abs(ev) > abs(ev[j]) - 1e-6) == 1:
            mon.le("exc:aligned", abs(np.angle(ev[j])), 1e-6, size=abs(ev[j]), **inf)
    tol, nh = judge_matrix(op, s, d, h, p, rng, mon, "exc:nontriv-matrix", inf)
    if n <= 24:
        spectra(lambda: s.excite_top_nontriv_brute(d, p, return_eigenvectors=True, return_H=True, phase_align=align),
                lambda nev: s.excite_top_nontriv(d, p, nev=nev, return_eigenvectors=True, ncv=min(n, max(20, 2 * nev + 1)),
                                                 phase_align=align),
                n, rng, mon, "exc:nontriv-eigenvalues", tol, nh, inf, p)
    mon.le("exc:state-unchanged", uni.state_distance(U0, dn.Uniform(s.A)), 1e-10, **inf)
    mon.true("exc:state-unchanged", np.array_equal(Ad, d.A[0]), what="donor", **inf)


def run_retry(case, rng, mon):
    """Convergence failures of the eigensolver are injected at chosen attempts."""
    wall = bool(rng.randint(2))
    s, d, h, inf = rand_state(rng, mon, wall=wall)
    n = (s.q - 1) * s.D ** 2
    mon.nontrivial = n > 0
    good = [np.array([1., 2.]), np.array([3., 4.])]
    plan = [bool(x) for x in rng.randint(0, 2, 3)]      # True: fails
    calls = []

    class Las(object):
        def __getattr__(self, k):
            return getattr(las, k)

        def eigsh(self, op, **kw):
            calls.append(kw)
            if plan[len(calls) - 1]:
                raise las.ArpackNoConvergence("injected", np.array([]), np.zeros((n, 0)))
            return good[len(calls) - 1] if len(calls) <= 2 else good[1]
    real = tu.las
    tu.las = Las()
    try:
        f = (lambda: s.excite_top_nontriv(d, 0.3, nev=2)) if wall else (lambda: s.excite_top_triv(0.3, nev=2))
        try:
            r = f()
        except tu.EvoMPSNoConvergence:
            r = None
    finally:
        tu.las = real
    mon.true("exc:retry", (r is None) == all(plan), plan=plan, calls=len(calls), what="raises only if every attempt failed")
    if not all(plan):
        mon.true("exc:retry", len(calls) == plan.index(False) + 1, plan=plan, calls=len(calls), what="stops after success")
    for i, kw in enumerate(calls[1:]):
        mon.true("exc:retry", kw["ncv"] >= calls[0]["ncv"] and kw["k"] == 2, what="keeps the request", plan=plan)


def run_tangent(case, rng, mon):
    wall = rng.rand() < 0.4
    s, d2, h, inf = rand_state(rng, mon, wall=wall)
    D, q = s.D, s.q
    if d2 is None:
        d2 = s
    elif rng.rand() < 0.6:
        # the profiles hold for any two states, not only for symmetric partners
        d2.A[0] = d2.A[0] + 0.5 * gen.cplx(rng, q, D, D)
        if dn.Uniform(d2.A).gap < 0.1 or dn.Uniform(d2.A).schmidt_sq(0).min() < 1e-4:
            raise core.Inconclusive("unsuitable partner")
        d2.update()
        inf["partner"] = "any"
    s.calc_l_r_roots()
    d2.calc_l_r_roots()
    d2.calc_B()
    B = gen.cplx(rng, q, D, D)
    if rng.rand() < 0.5:
        x = gen.cplx(rng, D, (q - 1) * D)
        B = d2.get_B_from_x(x, d2.Vsh[0], s.l_sqrt_i[0], d2.r_sqrt_i[0])
    l, r = uni.full(s.l[0]), uni.full(d2.r[0])
    B = B / np.sqrt(abs(excite.overlap(l, r, B, B)))
    mon.nontrivial = True
    mon.state(s.A[0], B)
    d = int(rng.randint(1, 5))
    nb = [None, int(rng.randint(1, 2 * d + 2))][rng.randint(2)]
    s2 = d2 if wall else None
    pos = d + 1 if nb is None else nb
    ts = [s.A[0]] * (pos - 1) + [B] + [d2.A[0]] * (2 * d + 1 - pos)
    op, op2 = dn.rand_op(rng, [q], herm=bool(rng.randint(2))), dn.rand_op(rng, [q], herm=bool(rng.randint(2)))
    n1 = np.linalg.norm(op) * 10
    info = dict(inf, d=d, nb=nb, wall=wall)
    nsite = 2 * d + 1
    B0, A0 = B.copy(), s.A[0].copy()
    got = s.expect_tangent_1s(B, op, d, nb=nb, s2=s2)
    ex = lambda ops: excite.chain_expect(ts, l, r, ops)
    e1 = np.array([ex({j: op}) for j in range(nsite)])
    e2 = np.array([ex({j: op2}) for j in range(nsite)])
    mon.close("exc:tangent-1s", got, e1, 1e-9, scale=n1, **info)
    if not wall and nb is None:
        o2 = dn.rand_op(rng, [q, q], herm=bool(rng.randint(2)))
        got = s.expect_tangent_2s(B, o2, d)
        mon.close("exc:tangent-2s", got, np.array([ex({j: o2}) for j in range(nsite - 1)]), 1e-9, scale=np.linalg.norm(o2) * 10,
                  **info)
    c, g = s.correlation_tangent_1s_1s(B, op, op2, d, nb=nb, s2=s2)
    wg = np.array([ex({0: op.dot(op2)})] + [ex({0: op, j: op2}) for j in range(1, nsite)])
    sc = np.linalg.norm(op) * np.linalg.norm(op2) * 10
    mon.close("exc:tangent-corr", g, wg, 1e-9, scale=sc, **info)
    mon.close("exc:tangent-corr", c, wg - e1[0] * e2, 1e-9, scale=sc, connected=True, **info)
    mon.true("exc:state-unchanged", np.array_equal(B0, B) and np.array_equal(A0, s.A[0]))


if __name__ == "__main__":
    sys.exit(core.main(sys.modules["__main__"], sys.argv[1:]))
