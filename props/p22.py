"""P22: nonuniform windows in infinite chains: gauge, environments, observables, growth, overlaps."""
import copy
import sys
import numpy as np
from mon import core, gen, dense as dn, uni, sand
import evoMPS.mps_sandwich as ms
import evoMPS.mps_uniform as mu

ID = "P22"
RULE = ("A case is a random nonuniform window between two random uniform bulks (equal, gauge-related or different); its "
        "updates, queries, growth, overlaps and tangent overlaps are compared with contractions of the stored tensors; "
        "non-trivial if the window differs from the bulk.")
REQUIRED_RULES = ["update:state", "update:norm", "update:idempotent", "env:left", "env:right", "env:product", "cf:left",
                  "cf:right", "cf:diag", "observe:local", "observe:distant", "observe:schmidt", "observe:density",
                  "observe:read-only", "grow:state", "grow:shape", "overlap:value", "overlap:self", "tangent-overlap:value",
                  "op:state", "build:state", "build:input-unchanged"]
ASSUMPTIONS = ["the window length is a multiple of the unit-cell length (the constructor warns otherwise), bulks are injective, "
               "environments well conditioned"]
T = 1e-8


def cases(tier, seed):
    k = 2 if tier == "quick" else 20
    rng = np.random.RandomState(seed * 53 + 22)
    return [{"kind": kind, "seed": int(rng.randint(1 << 30)), "cost": 1}
            for kind, n in (("update", 60), ("observe", 40), ("grow", 40), ("overlap", 40), ("tangent", 30), ("op", 30),
                            ("build", 30)) for _ in range(n * k)]


def run(case, mon):
    rng = np.random.RandomState(case["seed"])
    globals()["run_" + case["kind"]](rng, mon)


def regauge(rng, As):
    """The same uniform state with other tensors."""
    L, D = len(As), As[0].shape[1]
    G = [np.linalg.qr(gen.cplx(rng, D, D))[0] * np.exp(rng.uniform(-.4, .4, D)) for _ in range(L)]
    return [np.einsum("ab,sbc,cd->sad", np.linalg.inv(G[k - 1]), As[k], G[k]) * rng.uniform(.5, 2) for k in range(L)]


def bulk(rng, mon, cls=mu.EvoMPS_MPS_Uniform, Lmax=2, **kw):
    kw = dict(dict(qmin=2, qmax=2, Dmax=4, full_rank=1e-3, gap=0.15, styles=["random", "random", "real", "scaled"]), **kw)
    return uni.draw(rng, mon, Lmax=Lmax, **kw)[0]


def window(rng, mon, Lmax=2, same=None, cls=ms.EvoMPS_MPS_Sandwich, Nmax=5):
    As = bulk(rng, mon, Lmax=Lmax)
    L, q, D = len(As), As[0].shape[0], As[0].shape[1]
    how = ["none", "same", "regauged", "other"][rng.randint(4)] if same is None else same
    ul = uni.make(mu.EvoMPS_MPS_Uniform, As)
    ul.update()
    ur = None
    if how == "same":
        ur = copy.deepcopy(ul)
    elif how == "regauged":
        ur = uni.make(mu.EvoMPS_MPS_Uniform, regauge(rng, As))
        ur.update()
    elif how == "other":
        for _ in range(200):
            Bs = bulk(rng, mon, Lmax=Lmax)
            if len(Bs) == L and Bs[0].shape == As[0].shape:
                break
        else:
            raise core.Inconclusive("no matching right bulk")
        ur = uni.make(mu.EvoMPS_MPS_Uniform, Bs)
        ur.update()
    N = L * int(rng.randint(1, max(2, Nmax // L) + 1))
    s = cls(N, ul, ur)
    s.sanity_checks = bool(rng.rand() < .2)
    fac = [0., .1, 1.][rng.randint(3)]
    for n in range(1, N + 1):
        s.A[n] = s.A[n] + fac * gen.cplx(rng, *s.A[n].shape) * np.linalg.norm(s.A[n]) / np.sqrt(s.A[n].size)
    if rng.randint(2):
        s.A[rng.randint(1, N + 1)] *= np.exp(rng.uniform(-1, 1)) * np.exp(2j * np.pi * rng.rand())
    mon.info.update(L=L, q=q, D=D, N=N, right=how, fac=fac)
    mon.event("bulk:" + how)
    mon.nontrivial = fac > 0 or how in ("regauged", "other")
    return s, fac, how


def cond(V):
    """Condition of the environments of the window."""
    c = 1.
    for n in range(V.N + 1):
        for x in (V.left(n), V.right(n)):
            D = int(round(np.sqrt(x.size)))
            x = x.reshape(D, D)
            w = np.linalg.eigvalsh((x + x.conj().T) / np.trace(x) / 2)
            c = max(c, w.max() / max(w.min(), 1e-300))
    return c


def check_cond(V):
    c = cond(V)
    if c > 1e6:
        raise core.Inconclusive("ill-conditioned window")
    return c


def rdms(V, a, b):
    """Density matrices of overlapping blocks covering [a, b] (at most 6 sites each)."""
    m = min(6, b - a + 1)
    return [V.rdm(k, k + m - 1) for k in range(a, b - m + 2)]


def dist(x, y):
    return max(abs(a - b).max() for a, b in zip(x, y))


def env_rules(s, mon, V=None, **info):
    V = V or sand.View.of(s)
    for n in range(-2 * s.uni_l.L, s.N + 2 * s.uni_r.L + 1):
        l, r = uni.full(s.get_l(n)), uni.full(s.get_r(n))
        for rule, x, v in (("env:left", l.T, V.left(n)), ("env:right", r, V.right(n))):
            x = x.reshape(-1)
            v = v * (np.vdot(v, x) / np.vdot(v, v))
            mon.le(rule, np.linalg.norm(x - v) / np.linalg.norm(x), T, n=n, N=s.N, **info)
        mon.le("env:product", abs(np.trace(l.dot(r)) - 1), T, n=n, **info)
        # the recursions hold exactly, with the tensors as returned
        A = s.get_A(n)
        lm = uni.full(s.get_l(n - 1))
        want = np.einsum("sab,ac,scd->bd", A.conj(), lm, A)
        mon.le("env:left", abs(want - l).max() / abs(l).max(), T, n=n, how="recursion", **info)
        rm = uni.full(s.get_r(n - 1))
        want = np.einsum("sab,bc,sdc->ad", A, r, A.conj())
        mon.le("env:right", abs(want - rm).max() / abs(rm).max(), T, n=n, how="recursion", **info)
        if n < 0:
            x = uni.full(s.get_r(n, s.get_r(n + 1)))
            mon.le("env:right", abs(x - r).max() / abs(r).max(), T, n=n, how="from next", **info)
    mon.event("environments")


def cf_rules(s, mon, **info):
    nc = s.N_centre
    for n in range(s.N + 1):
        l, r = uni.full(s.l[n]), uni.full(s.r[n])
        I = np.eye(l.shape[0])
        if n < nc:
            mon.le("cf:left", abs(l - I * l[0, 0]).max() / abs(l).max(), T, n=n, nc=nc, **info)
            d = r
        else:
            mon.le("cf:right", abs(r - np.eye(r.shape[0]) * r[0, 0]).max() / abs(r).max(), T, n=n, nc=nc, **info)
            d = l
        mon.le("cf:diag", abs(d - np.diag(np.diag(d))).max() / abs(d).max(), T, n=n, nc=nc, **info)


def run_update(rng, mon):
    s, fac, how = window(rng, mon)
    V = sand.View.of(s)
    c = check_cond(V)
    Lr = max(s.uni_l.L, s.uni_r.L)
    a, b = 1 - Lr, s.N + Lr
    before = rdms(V, a, b)
    mon.state(before[0])
    mode = rng.randint(3)
    tol = 1e-8 * c ** .5
    if mode == 0:
        s.update(restore_CF=False)
    s.update()
    mon.event("update")
    W = sand.View.of(s)
    mon.le("update:state", dist(before, rdms(W, a, b)), tol, mode=mode, how=how)
    mon.le("update:norm", abs(np.trace(uni.full(s.l[s.N]).dot(uni.full(s.r[s.N]))) - 1), T)
    env_rules(s, mon, W)
    cf_rules(s, mon)
    for u in (s.uni_l, s.uni_r):
        mon.le("update:norm", max(abs(1 - dn.Uniform(u.A).lam), 0), 1e-9, what="bulk")
    if mode == 1:
        # plain updates of a canonical state change nothing
        A0 = gen.copyA(s.A)
        s.update(restore_CF=False, normalize=bool(rng.randint(2)))
        mon.le("update:idempotent", max(abs(A0[n] - s.A[n]).max() for n in range(1, s.N + 1)), T, what="no CF")
        env_rules(s, mon, what="no CF")
    s.update()
    X = sand.View.of(s)
    mon.le("update:idempotent", dist(before, rdms(X, a, b)), tol, what="again")
    env_rules(s, mon, X, what="again")
    cf_rules(s, mon, what="again")
    # after perturbing the canonical state
    for n in range(1, s.N + 1):
        s.A[n] = s.A[n] + .05 * gen.cplx(rng, *s.A[n].shape)
    V = sand.View.of(s)
    if cond(V) < 1e6:
        before = rdms(V, a, b)
        s.update(restore_CF=False, normalize=True)
        mon.le("update:state", dist(before, rdms(sand.View.of(s), a, b)), tol, what="noCF-perturbed")
        env_rules(s, mon, what="noCF-perturbed")
        s.update()
        mon.le("update:state", dist(before, rdms(sand.View.of(s), a, b)), 1e-8 * cond(V) ** .5, what="perturbed")
        env_rules(s, mon, what="perturbed")
        cf_rules(s, mon, what="perturbed")


def run_observe(rng, mon):
    s, fac, how = window(rng, mon)
    check_cond(sand.View.of(s))
    s.update(restore_CF=bool(rng.randint(3)))
    V = sand.View.of(s)
    mon.state(V.rdm(1, min(s.N, 4)))
    q, L = s.q[1], s.uni_l.L
    lo, hi = -2 * L - 1, s.N + 2 * L + 1
    snap = copy.deepcopy(([uni.full(a) for a in s.A[1:s.N + 1]], [uni.full(a) for a in s.uni_l.A], [uni.full(a) for a in s.uni_r.A],
                          [uni.full(x) for x in s.l[:s.N + 1]], [uni.full(x) for x in s.r[:s.N + 1]]))
    for n in range(lo, hi):
        m = 1 + rng.randint(3)
        o = dn.rand_op(rng, [q] * m, herm=bool(rng.randint(2)))
        arg = (lambda o: lambda *a: o[tuple(int(i) for i in a)])(o) if rng.rand() < .2 else o.copy()
        got = [s.expect_1s, s.expect_2s, s.expect_3s][m - 1](arg, n)
        mon.le("observe:local", abs(got - V.expect(o, n)), T, n=n, m=m, N=s.N)
    o1, o2 = [dn.rand_op(rng, [q], herm=bool(rng.randint(2))) for _ in range(2)]
    n1 = int(rng.randint(lo, hi))
    d = int(rng.randint(1, 6))
    want = [V.expect(o1.dot(o2), n1)] + [V.expect([(o1, 1), (None, j - 1), (o2, 1)], n1) for j in range(1, d + 1)]
    mon.le("observe:distant", abs(np.array(s.expect_1s_1s(o1, o2, n1, n1 + d, return_intermediates=True)) - want).max(), T, n=n1, d=d)
    mon.le("observe:distant", abs(s.expect_1s_1s(o1, o2, n1, n1 + d) - want[-1]), T, n=n1, d=d)
    cc = [want[j] - V.expect(o1, n1) * V.expect(o2, n1 + j) for j in range(d + 1)]
    mon.le("observe:distant", abs(np.array(s.correlation_1s_1s(o1, o2, n1, d)) - cc).max(), T, n=n1, d=d, what="connected")
    want = [V.expect([(o1, 1)] * j, n1) for j in range(1, d + 1)]
    mon.le("observe:distant", abs(np.array(s.expect_string_1s(o1, n1, d)) - want).max(), T, n=n1, d=d, what="string")
    # a random matrix product operator
    k = 1 + int(rng.randint(3))
    bd = [1] + [int(rng.randint(1, 4)) for _ in range(k - 1)] + [1]
    MPO = [gen.cplx(rng, bd[j], bd[j + 1], q, q) / np.sqrt(bd[j + 1]) for j in range(k)]
    o = dn.mpo_full(MPO, 1, [q] * k).reshape([q] * (2 * k))
    mon.le("observe:distant", abs(s.expect_MPO([w.copy() for w in MPO], n1) - V.expect(o, n1)), T, n=n1, k=k, what="mpo")
    for n in range(-L, s.N + L + 1):
        w = V.schmidt_sq(n)
        lam = np.sort(np.asarray(s.schmidt_sq(n)).real)[::-1]
        mon.le("observe:schmidt", abs(lam - w).max(), T, n=n)
        w = w[w > 1e-14]
        mon.le("observe:schmidt", abs(s.entropy(n) + (w * np.log2(w)).sum()), 1e-7, n=n, what="entropy")
    n = int(rng.randint(1, s.N + 1))
    mon.le("observe:density", abs(s.density_1s(n) - V.rdm(n, n)).max(), T, n=n)
    if s.N > 1:
        n1 = int(rng.randint(1, s.N))
        n2 = int(rng.randint(n1 + 1, s.N + 1))
        full = V.rdm(n1, n2).reshape([q, q ** (n2 - n1 - 1), q] * 2)
        mon.le("observe:density", abs(s.density_2s(n1, n2) - np.einsum("axbcxd->abcd", full).reshape(q * q, q * q)).max(), T,
               n1=n1, n2=n2)
    now = ([uni.full(a) for a in s.A[1:s.N + 1]], [uni.full(a) for a in s.uni_l.A], [uni.full(a) for a in s.uni_r.A],
           [uni.full(x) for x in s.l[:s.N + 1]], [uni.full(x) for x in s.r[:s.N + 1]])
    mon.true("observe:read-only", all(np.array_equal(a, b) for x, y in zip(snap, now) for a, b in zip(x, y)))


def run_grow(rng, mon):
    s, fac, how = window(rng, mon, Nmax=3)
    check_cond(sand.View.of(s))
    if rng.randint(2):
        s.update()
    V = sand.View.of(s)
    tol = 1e-8 * cond(V) ** .5
    L = s.uni_l.L
    off = 0
    N0 = s.N
    mon.state(V.rdm(1, s.N))
    a, b = 1 - 2 * L, s.N + 2 * L
    before = rdms(V, a, b)
    grown = [0, 0]
    for step in range(1 + rng.randint(3)):
        m = 1 + int(rng.randint(2))
        left = bool(rng.randint(2))
        (s.grow_left if left else s.grow_right)(m)
        grown[0 if left else 1] += m * L
        if left:
            off += m * L
        N0 += m * L
        mon.event("grow:" + ("left" if left else "right"))
        mon.true("grow:shape", s.N == N0 and len(s.D) == N0 + 2 and len(s.q) == N0 + 2, N=s.N, want=N0)
        mon.true("grow:shape", (s.grown_left, s.grown_right) == tuple(grown), got=str((s.grown_left, s.grown_right)))
        for n in range(1, s.N + 1):
            mon.true("grow:shape", s.A[n].shape == (s.q[n], s.D[n - 1], s.D[n]), n=n)
        W = sand.View.of(s)
        mon.le("grow:state", dist(before, rdms(W, a + off, b + off)), tol, left=left, m=m, L=L)
        if rng.randint(2):
            s.update(restore_CF=bool(rng.randint(3)))
            mon.le("grow:state", dist(before, rdms(sand.View.of(s), a + off, b + off)), tol, what="update")
            env_rules(s, mon)


def fidelity(V, W, rng):
    """|<V|W>| for windows between bulks that are gauge transforms of each other."""
    ML, MR = dn.Uniform(V.AL, W.AL), dn.Uniform(V.AR, W.AR)
    x = ML.Lv
    for j in range(1, V.N + 1):
        x = x.dot(dn.site_E(V.A(j), W.A(j)))
    ov = x.dot(MR.R)

    def selfn(U):
        l, r = U.left(0), U.right(U.N)
        for j in range(1, U.N + 1):
            l = l.dot(dn.site_E(U.A(j)))
        return l.dot(r)
    # scale of the mixed fixed points: <l_mixed| is a vector of unit overlap with the two bulks' purifications
    def bulk_scale(v, lV, lW):
        D = int(round(np.sqrt(v.size)))
        m = v.reshape(D, D)
        a, b = [z.reshape(D, D) for z in (lV, lW)]
        # m = lV g = g^-dagger lW ...: |m|^2 measured in the metric of both
        return np.sqrt(abs(np.trace(np.linalg.inv(a.T).dot(m.T).dot(np.linalg.inv(b)).dot(m.conj())) / D))
    cl = bulk_scale(ML.Lv, V.left(0), W.left(0))
    cr = bulk_scale(MR.R, V.right(V.N), W.right(W.N))
    return abs(ov) / (cl * cr) / np.sqrt(abs(selfn(V) * selfn(W)))


def run_overlap(rng, mon):
    s, fac, how = window(rng, mon)
    check_cond(sand.View.of(s))
    o = copy.deepcopy(s)
    kind = rng.randint(3)
    if kind:
        for n in range(1, o.N + 1):
            o.A[n] = o.A[n] + .3 * gen.cplx(rng, *o.A[n].shape)
        check_cond(sand.View.of(o))
    s.update()
    o.update()
    V, W = sand.View.of(s), sand.View.of(o)
    mon.state(V.rdm(1, min(s.N, 4)))
    f = fidelity(V, W, rng)
    if not kind:
        mon.le("overlap:self", abs(f - 1), 1e-7, what="oracle")
        mon.le("overlap:self", abs(abs(s.overlap(o)) - 1), 1e-7)
    g, h = s.overlap(o), o.overlap(s)
    mon.event("overlap")
    mon.le("overlap:value", abs(abs(g) - f), 1e-7, f=f, N=s.N)
    mon.le("overlap:value", abs(abs(h) - abs(g)), 1e-7, what="symmetric")
    mon.le("overlap:self", abs(abs(s.overlap(s)) - 1), 1e-7, what="itself")
    # states related by gauge transformations of window and bulks overlap fully
    t = copy.deepcopy(s)
    G = [np.linalg.qr(gen.cplx(rng, s.D[n], s.D[n]))[0] for n in range(s.N + 1)]
    for n in range(1, s.N + 1):
        t.A[n] = np.einsum("ab,sbc,cd->sad", G[n - 1].conj().T, s.A[n], G[n])
    for u, g in ((t.uni_l, G[0]), (t.uni_r, G[s.N])):
        u.A[0] = np.einsum("ab,sbc->sac", g.conj().T, u.A[0])
        u.A[-1] = np.einsum("sab,bc->sac", u.A[-1], g)
    t.update()
    mon.le("overlap:self", abs(abs(s.overlap(t)) - 1), 1e-7, what="gauge")


def run_tangent(rng, mon):
    """Overlap of a window state with a momentum superposition of one-site changes of two bulks."""
    s, fac, how = window(rng, mon, Lmax=1)
    V = sand.View.of(s)
    check_cond(V)
    s.update()
    V = sand.View.of(s)
    AL, AR = np.asarray(s.uni_l.A[0]), np.asarray(s.uni_r.A[0])
    D, q = AR.shape[1], AR.shape[0]
    rR = uni.full(s.uni_r.r[0])
    # right gauge fixing: sum_s B_s r A_s^dagger = 0
    M = np.einsum("bc,sdc->sbd", rR, AR.conj()).reshape(q * D, D)
    Q = np.linalg.svd(M)[0][:, D:] if q > 1 else np.zeros((q * D, 0))
    x = gen.cplx(rng, D, Q.shape[1])
    B = x.dot(Q.conj().T).reshape(D, q, D).transpose(1, 0, 2)
    chk = np.einsum("sab,bc,sdc->ad", B, rR, AR.conj())
    if abs(chk).max() > 1e-10 * abs(B).max():
        raise core.Inconclusive("gauge fixing failed")
    p = [0., np.pi, float(rng.uniform(-3, 3))][rng.randint(3)]
    # the two bulks of the excitation, left of B: AL, right of it: AR
    T = dn.site_E(AL, AR)
    rho = max(abs(np.linalg.eigvals(T)))
    same = how in ("none", "same")
    top = how in ("none", "same", "regauged")
    lL = uni.full(s.uni_l.l[0])

    def place(j):
        """<B at site j| s>."""
        a, b = min(j, 1), max(j, s.N)
        v = lL.T.reshape(-1)
        for k in range(a, b + 1):
            v = v.dot(dn.site_E(s.get_A(k), AL if k < j else (B if k == j else AR)))
        return v.dot(rR.reshape(-1))
    win = [place(j) * np.exp(-1j * p * j) for j in range(1, s.N + 1)]
    got = s.overlap_tangent(B.copy(), p, top_triv=top, return_contributions=True)
    mon.event("overlap_tangent")
    mon.state(B, p)
    sc = max(abs(np.array(win)).max(), np.linalg.norm(B))
    mon.le("tangent-overlap:value", abs(np.array(got[1]) - win).max() / sc, 1e-8, p=p, what="window")
    if top and rho > 0.99:
        # the part along the leading eigenvector is removed: sum over the rest by explicit powers
        w, X = np.linalg.eig(T)
        Y = np.linalg.inv(X)
        i = int(np.argmax(abs(w)))
        Pl = np.outer(X[:, i], Y[i])
    else:
        Pl = np.zeros_like(T)
    w2 = np.sort(abs(np.linalg.eigvals(T - T.dot(Pl))))[-1]
    if w2 > 0.97:
        raise core.Inconclusive("slow decay")
    J = int(np.log(1e-14) / np.log(max(w2, 1e-2))) + 3
    v0 = lL.T.reshape(-1).dot(dn.site_E(AL, B))
    rs = rR.reshape(-1)
    for k in range(s.N, 0, -1):
        rs = dn.site_E(s.A[k], AR).dot(rs)
    tot, x = 0, rs - Pl.dot(rs)
    lead = abs(v0.dot(Pl.dot(rs)))
    for j in range(J):
        tot += np.exp(1j * p * j) * v0.dot(x)
        x = T.dot(x)
    if top and rho > 0.99 and lead > 1e-9 * sc:
        return mon.event("divergent-sum")      # only the regularised value would be defined
    mon.le("tangent-overlap:value", abs(got[0] - tot) / sc, 1e-4, p=p, what="bulk", how=how, rho=rho)
    mon.le("tangent-overlap:value", abs(s.overlap_tangent(B.copy(), p, top_triv=top) - tot - sum(win)) / sc, 1e-4, what="sum")


def run_op(rng, mon):
    s, fac, how = window(rng, mon)
    check_cond(sand.View.of(s))
    if rng.randint(2):
        s.update()
    V = sand.View.of(s)
    q = s.q[1]
    n = int(rng.randint(1, s.N + 1))
    op = dn.rand_op(rng, [q], herm=bool(rng.randint(2)))
    L = s.uni_l.L
    W = sand.View(V.AL, [a if k != n - 1 else np.einsum("st,tab->sab", op, a) for k, a in enumerate(V.AC)], V.AR)
    check_cond(W)
    a, b = 1 - L, s.N + L
    want = rdms(W, a, b)
    mon.state(want[0], op)
    arg = (lambda i, j: op[int(i), int(j)]) if rng.randint(2) else op.copy()
    upd = bool(rng.randint(3))
    s.apply_op_1s(arg, n, do_update=upd)
    mon.event("apply_op_1s")
    mon.le("op:state", dist(want, rdms(sand.View.of(s), a, b)), 1e-8 * cond(W) ** .5, upd=upd, n=n)
    if upd:
        env_rules(s, mon)
        cf_rules(s, mon)
    for bad in (0, s.N + 1):
        try:
            s.apply_op_1s(op, bad)
        except ValueError:
            mon.event("refused")
        else:
            mon.true("op:state", False, what="accepted a bulk site")


def run_build(rng, mon):
    """States from explicit tensors with different bulks and bond dimensions."""
    AL = bulk(rng, mon)
    if rng.randint(2):
        AR = bulk(rng, mon)
    else:
        AR = regauge(rng, AL)
    q = AL[0].shape[0]
    LL, LR = len(AL), len(AR)
    Lc = LL * LR
    N = Lc * int(rng.randint(1, max(1, 4 // Lc) + 1))
    Ds = [AL[0].shape[1]] + [int(rng.randint(1, 5)) for _ in range(N - 1)] + [AR[0].shape[1]]
    for n in range(1, N):
        Ds[n] = min(Ds[n], Ds[n - 1] * q)
    for n in range(N - 1, 0, -1):
        Ds[n] = min(Ds[n], Ds[n + 1] * q)
    if max(Ds[n - 1] / float(Ds[n]) for n in range(1, N + 1)) > q or max(Ds[n] / float(Ds[n - 1]) for n in range(1, N + 1)) > q:
        return mon.event("impossible-dimensions")
    AC = [gen.cplx(rng, q, Ds[n - 1], Ds[n]) for n in range(1, N + 1)]
    V = sand.View(AL, AC, AR)
    check_cond(V)
    Lm = max(LL, LR)
    a, b = 1 - Lm, N + Lm
    want = rdms(V, a, b)
    mon.state(want[0])
    mon.nontrivial = True
    ref = copy.deepcopy((AL, AC, AR))
    which = rng.randint(2)
    f = [ms.EvoMPS_MPS_Sandwich.from_tensors, ms.sandwich_from_tensors][which]
    s = f(AL, AC, AR)
    mon.event("from_tensors")
    mon.le("build:state", dist(want, rdms(sand.View.of(s), a, b)), 1e-9, which=which, LL=LL, LR=LR)
    mon.true("build:input-unchanged", all(np.array_equal(x, y) for g, h in zip(ref, (AL, AC, AR)) for x, y in zip(g, h)), which=which)
    for n in range(1, N + 1):
        mon.true("build:state", s.A[n].shape == (s.q[n], s.D[n - 1], s.D[n]), n=n)
    s.update()
    mon.le("build:state", dist(want, rdms(sand.View.of(s), a, b)), 1e-8 * cond(V) ** .5, what="update", which=which)
    env_rules(s, mon)
    cf_rules(s, mon)


if __name__ == "__main__":
    sys.exit(core.main(sys.modules["__main__"], sys.argv[1:]))
