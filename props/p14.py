"""P14: manipulations of uniform states (bond and site dimension, blocking, alignment, fidelity)."""
import copy
import sys
import numpy as np
from mon import core, dense as dn, uni
import evoMPS.mps_uniform as mu
import evoMPS.tdvp_uniform as tu

ID = "P14"
RULE = ("A case is one random unit cell and one manipulation (truncation, bond or site dimension change, blocking, "
        "construction from tensors or another state, operator application, phase / gauge alignment, fidelity) with "
        "random parameters; the resulting state is compared with a dense construction of the documented result; "
        "non-trivial if the bond dimension exceeds 1.")
REQUIRED_RULES = ["umanip:truncate", "umanip:expand-keeps-state", "umanip:set_q-embeds", "umanip:set_q-back",
                  "umanip:blocked", "umanip:blocked-energy", "umanip:from-tensors", "umanip:from-mps", "umanip:apply-op",
                  "umanip:noise", "umanip:fidelity", "umanip:fidelity-vector", "umanip:phase-align",
                  "umanip:gauge-align", "umanip:gauge-align-refused", "umanip:valid"]
ASSUMPTIONS = ["leading transfer eigenvalue separated by a relative gap > 0.05",
               "truncation cuts between Schmidt weights that differ by more than 1e-5"]
T = 1e-7


def cases(tier, seed):
    k = 1 if tier == "quick" else 10
    rng = np.random.RandomState(seed * 41 + 14)
    out = []
    for kind, n in (("truncate", 50), ("expand", 40), ("setq", 40), ("block", 30), ("build", 40), ("applyop", 40),
                    ("fidelity", 60), ("align", 60)):
        for i in range(n * k):
            out.append({"kind": kind, "seed": int(rng.randint(1 << 30))})
    return out


def run(case, mon):
    rng = np.random.RandomState(case["seed"])
    np.random.seed(case["seed"] & 0x7fffffff)
    globals()["run_" + case["kind"]](case, rng, mon)


def valid(mon, s, full=True, **info):
    """The stored environments describe the stored tensors."""
    e = uni.env_errors(s)
    mon.le("umanip:valid", max(e['norm'], e['l']), T, **info)
    if full:
        mon.le("umanip:valid", e['r'], T, **info)


def dist(As, Bs, m=None):
    U, V = dn.Uniform(As), dn.Uniform(Bs)
    return uni.state_distance(U, V, m or (2 if U.q > 2 else 3))


def dense_truncate(As, m):
    """The state with the projector on the m largest Schmidt values in every bond."""
    U = dn.Uniform(As)
    L, D = U.L, As[0].shape[1]
    P = []
    for k in range(L):
        x, y = U.lr(k)
        l, r = x.reshape(D, D).T, y.reshape(D, D)     # l: <a'|..|a> as a matrix acting to the right
        def root(h):
            h = h / np.trace(h)
            h = (h + h.conj().T) / 2
            w, v = np.linalg.eigh(h)
            return (v * np.sqrt(np.maximum(w, 0))).dot(v.conj().T)
        Y, X = root(l), root(r)
        u, sv, vh = np.linalg.svd(Y.dot(X))
        s = 1 / np.sqrt(sv[:m])
        P.append(((X.dot(vh.conj().T[:, :m]) * s), (s[:, None] * u.conj().T[:m].dot(Y)), sv))
    out = [np.einsum('ab,sbc,cd->sad', P[k - 1][1], U.As[k], P[k][0]) for k in range(L)]
    return out, [p[2] for p in P]


def run_truncate(case, rng, mon):
    for _ in range(50):
        As, U, inf = uni.draw(rng, mon, Dmin=2, qmin=2, full_rank=1e-6)
        m = int(rng.randint(1, inf["D"]))
        sp = [U.schmidt_sq(k) for k in range(U.L)]
        if all(x[m - 1] - x[m] > 1e-5 for x in sp):
            break
    else:
        raise core.Inconclusive("no cut")
    want, _ = dense_truncate(As, m)
    W = dn.Uniform(want)
    if not W.gap > 0.05 or min(W.schmidt_sq(k).min() for k in range(W.L)) < 1e-6:
        mon.event("truncate:ill-conditioned-skipped")
        return
    symm = bool(rng.randint(2))
    s = uni.make(mu.EvoMPS_MPS_Uniform, As, symm_gauge=symm)
    s.update()
    mon.nontrivial = True
    mon.state(*As)
    upd = bool(rng.randint(2))
    s.truncate(m, update=upd)
    mon.true("umanip:dimension", s.D == m and all(a.shape[1:] == (m, m) for a in s.A), D=s.D)
    mon.le("umanip:truncate", dist(want, s.A), T, symm=symm, m=m, **inf)
    if not upd:
        s.update()
        mon.le("umanip:truncate", dist(want, s.A), T, symm=symm, m=m, after_update=True, **inf)
    valid(mon, s)
    # expectation values are available at once
    op = dn.rand_op(rng, [s.q])
    k = int(rng.randint(s.L))
    mon.le("umanip:truncate", abs(s.expect_1s(op, k) - W.expect(op, k)), T, expect=True)


def run_expand(case, rng, mon):
    As, U, inf = uni.draw(rng, mon, Dmax=5, full_rank=1e-6)
    s = uni.make(mu.EvoMPS_MPS_Uniform, As, symm_gauge=bool(rng.randint(2)))
    s.update()
    newD = s.D + int(rng.randint(0, 4))
    mon.nontrivial = newD > 1
    mon.state(*As)
    how = rng.randint(3)
    D0 = s.D
    if how == 0:
        s.expand_D(newD, refac=0, imfac=0)
        mon.le("umanip:expand-keeps-state", dist(As, s.A), T, newD=newD, **inf)
        s.update(auto_truncate=True)
        mon.le("umanip:expand-keeps-state", dist(As, s.A), T, newD=newD, updated=True, **inf)
        mon.true("umanip:expand-truncated-back", s.D == D0, D=s.D, want=D0)
        valid(mon, s)
    else:
        fac = [1e-3, 1., 100.][rng.randint(3)]
        s.expand_D(newD, refac=fac, imfac=fac)
        mon.true("umanip:dimension", s.D == newD and all(a.shape == (s.q, newD, newD) for a in s.A))
        V = dn.Uniform(s.A)
        if V.gap < 0.05 or min(V.schmidt_sq(k).min() for k in range(V.L)) < 1e-6:
            mon.event("expand:ill-conditioned-skipped")
            return
        B = [a.copy() for a in s.A]
        s.update()
        mon.le("umanip:expand-noise-update", dist(B, s.A), T, fac=fac, **inf)
        valid(mon, s)
    d = s.D
    if d > 1:
        mon.true("umanip:expand-refuses-smaller", s.expand_D(d - 1) is False and s.D == d)


def run_setq(case, rng, mon):
    As, U, inf = uni.draw(rng, mon, Dmax=5)
    cls = [mu.EvoMPS_MPS_Uniform, tu.EvoMPS_TDVP_Uniform][rng.randint(2)]
    q = inf["q"]
    extra = ()
    if cls is tu.EvoMPS_TDVP_Uniform:
        extra = (dn.rand_op(rng, [q, q], herm=True),)
    s = uni.make(cls, As, *extra)
    s.update()
    Q = q + int(rng.randint(0, 3))
    off = int(rng.randint(0, Q - q + 1))
    mon.nontrivial = s.D > 1 and Q > q
    mon.state(*As)
    if extra:
        s.ham = lambda *a: 0.
        s.ham_sites = 2
    s.set_q(Q, off)
    mon.true("umanip:dimension", s.q == Q and all(a.shape[0] == Q for a in s.A))
    op = dn.rand_op(rng, [Q])
    sub = op[off:off + q, off:off + q]
    for k in range(s.L):
        mon.le("umanip:set_q-embeds", abs(s.expect_1s(op, k) - U.expect(sub, k)), T, k=k, Q=Q, off=off, **inf)
    s.update(restore_CF=bool(rng.randint(2)))
    for k in range(s.L):
        mon.le("umanip:set_q-embeds", abs(s.expect_1s(op, k) - U.expect(sub, k)), T, k=k, Q=Q, off=off, updated=True,
               **inf)
    if Q > q:
        s.set_q(q, -off)
        mon.le("umanip:set_q-back", dist(As, s.A), T, Q=Q, off=off, **inf)
        s.update()
        mon.le("umanip:set_q-back", dist(As, s.A), T, Q=Q, off=off, updated=True, **inf)


def run_block(case, rng, mon):
    As, U, inf = uni.draw(rng, mon, Dmax=5, full_rank=1e-6)
    L, q = inf["L"], inf["q"]
    tdvp = bool(rng.randint(2))
    sites = 2 + int(rng.rand() < 0.4)
    if tdvp:
        h = dn.rand_op(rng, [q] * sites, herm=True)
        ham = (lambda *a: h[tuple(int(x) for x in a)]) if rng.rand() < 0.3 else h
        s = tu.EvoMPS_TDVP_Uniform(inf["D"], q, ham, ham_sites=sites, L=L, do_update=False)
        for k in range(L):
            s.A[k][:] = As[k]
        s.symm_gauge = bool(rng.randint(2))
    else:
        s = uni.make(mu.EvoMPS_MPS_Uniform, As, symm_gauge=bool(rng.randint(2)))
    s.update()
    mon.nontrivial = L > 1
    mon.state(*As)
    if tdvp and sites == 3 and L < 2:
        return
    E = s.h_expect if tdvp else None
    if rng.rand() < 0.5:
        s.convert_to_TI_blocked()
    else:
        s.convert_to_TI_blocked(do_update=False)
        s.update()
    mon.true("umanip:dimension", s.L == 1 and s.q == q ** L and s.A[0].shape == (q ** L, inf["D"], inf["D"]))
    V = dn.Uniform(s.A)
    mon.le("umanip:blocked", abs(V.rdm(0, 1) - U.rdm(0, L)).max(), T, **inf)
    valid(mon, s)
    if tdvp:
        want = np.mean([U.expect(h, k) for k in range(L)])
        mon.le("umanip:blocked-energy", abs(s.h_expect - L * want), T, sites=sites, **inf)


def run_build(case, rng, mon):
    As, U, inf = uni.draw(rng, mon, qmin=2, full_rank=1e-6)
    q, L = inf["q"], inf["L"]
    mon.nontrivial = inf["D"] > 1
    mon.state(*As)
    src = [a.copy() for a in As]
    upd = bool(rng.randint(2))
    m = mu.EvoMPS_MPS_Uniform.from_tensors(src, do_update=upd)
    mon.true("umanip:from-tensors-args", all(np.array_equal(a, b) for a, b in zip(src, As)))
    if not upd:
        m.update()
    m.symm_gauge = bool(rng.randint(2))
    mon.le("umanip:from-tensors", dist(As, m.A), T, **inf)
    valid(mon, m)
    op = dn.rand_op(rng, [q] * 2)
    k = int(rng.randint(L))
    mon.le("umanip:from-tensors", abs(m.expect_2s(op, k) - U.expect(op, k)), T, expect=True, **inf)
    # ... and the TDVP class from the state / tensors
    h = dn.rand_op(rng, [q] * 2, herm=True)
    E = np.mean([U.expect(h, j) for j in range(L)])
    pre = [a.copy() for a in m.A]
    if rng.rand() < 0.5:
        m.update(restore_CF=True)
        pre = [a.copy() for a in m.A]
        t = tu.EvoMPS_TDVP_Uniform.from_mps(m, h)
    else:
        t = tu.EvoMPS_TDVP_Uniform.from_tensors([a.copy() for a in As], h)
        pre = None
    mon.le("umanip:from-mps", dist(As, t.A), T, **inf)
    valid(mon, t)
    mon.le("umanip:from-mps", abs(t.expect_2s(op, k) - U.expect(op, k)), T, expect=True, **inf)
    mon.le("umanip:from-mps", abs(t.h_expect - E), T, energy=True, **inf)
    B = t.calc_B()
    mon.le("umanip:from-mps", abs(t.expect_2s(h, k) - U.expect(h, k)), T, energy=True, **inf)
    t.update()
    mon.le("umanip:from-mps", abs(t.h_expect - E), T, updated=True, **inf)
    mon.le("umanip:from-mps", dist(As, t.A), T, updated=True, **inf)
    # independent of the source afterwards
    for a in t.A:
        a *= 2.
    if pre is not None:
        mon.true("umanip:from-mps-independent", all(np.array_equal(a, b) for a, b in zip(pre, m.A)))


def run_applyop(case, rng, mon):
    As, U, inf = uni.draw(rng, mon, qmin=2, full_rank=1e-6)
    s = uni.make(mu.EvoMPS_MPS_Uniform, As, symm_gauge=bool(rng.randint(2)))
    s.update()
    q, L = s.q, s.L
    mon.nontrivial = s.D > 1
    mon.state(*As)
    op = dn.rand_op(rng, [q]) + np.eye(q)
    ks = [int(rng.randint(L))]
    if rng.rand() < 0.5:
        ks = list(range(L))
    Bs = [a.copy() for a in As]
    for k in ks:
        Bs[k] = np.einsum('st,tab->sab', op, Bs[k])
    W = dn.Uniform(Bs)
    if W.gap < 0.05 or min(W.schmidt_sq(k).min() for k in range(L)) < 1e-6:
        mon.event("apply:ill-conditioned-skipped")
        return
    f = (lambda a, b: op[int(a), int(b)]) if rng.rand() < 0.3 else op
    for k in ks:
        s.apply_op_1s(f, k, do_update=bool(rng.randint(2)))
    s.update()
    mon.le("umanip:apply-op", dist(Bs, s.A), T, ks=ks, **inf)
    valid(mon, s)
    # noise: zero changes nothing, small noise changes little
    t = copy.deepcopy(s)
    t.add_noise(0., do_update=bool(rng.randint(2)))
    mon.le("umanip:noise", dist(s.A, t.A), T, fac=0)
    t = copy.deepcopy(s)
    t.add_noise(1e-6)
    d = dist(s.A, t.A)
    mon.true("umanip:noise", d < 1e-3, d=d)


def eigen_check(A, B, V, w, left, LL):
    """|| E(V) - w V || for the overlap transfer operator of one common cell."""
    x = V
    if left:
        for j in range(LL):
            x = sum(a.conj().T.dot(x).dot(b) for a, b in zip(A[j % len(A)], B[j % len(B)]))
        return abs(x - np.conj(w) * V).max()
    for j in range(LL - 1, -1, -1):
        x = sum(a.dot(x).dot(b.conj().T) for a, b in zip(A[j % len(A)], B[j % len(B)]))
    return abs(x - w * V).max()


def run_fidelity(case, rng, mon):
    As, U, inf = uni.draw(rng, mon, Dmax=6, full_rank=1e-6)
    for _ in range(200):
        L2 = int(rng.randint(1, 4)) if rng.rand() < 0.4 else inf["L"]
        D2 = int(rng.randint(1, 7))
        Bs = uni.rand_cell(rng, L2, inf["q"], D2, 'random')
        if rng.rand() < 0.3 and L2 == inf["L"]:
            Bs = [a + 0.1 * uni.cplx(rng, *a.shape) / np.linalg.norm(a) for a in As]
        V = dn.Uniform(Bs)
        if V.gap > 0.05 and min(V.schmidt_sq(k).min() for k in range(L2)) > 1e-6:
            break
    else:
        raise core.Inconclusive("no second state")
    a = uni.make(mu.EvoMPS_MPS_Uniform, As, symm_gauge=bool(rng.randint(2)))
    b = uni.make(mu.EvoMPS_MPS_Uniform, Bs, symm_gauge=bool(rng.randint(2)))
    a.update()
    b.update()
    LL = int(np.lcm(a.L, b.L))
    M = dn.Uniform([a.A[j % a.L] for j in range(LL)], [b.A[j % b.L] for j in range(LL)])
    m = np.sort(abs(M.w))[::-1]
    mon.nontrivial = max(a.D, b.D) > 1
    mon.state(*(As + Bs))
    left = bool(rng.randint(2))
    kw = {}
    r = rng.randint(3)
    if r == 0:
        kw = dict(force_dense=True)
    elif r == 1 and a.D * b.D >= 4:
        kw = dict(force_sparse=True, ncv=None)
    if len(m) > 1 and m[1] > 0.98 * m[0] and r == 1:
        mon.event("fidelity:degenerate-skipped")
        return
    info = dict(left=left, LL=LL, D2=b.D, kw=sorted(kw), **inf)
    snap = [x.copy() for x in a.A + b.A]
    d, w = a.fidelity_per_site(b, left=left, **kw)
    mon.le("umanip:fidelity", abs(d - abs(M.lam) ** (1. / LL)), 1e-8, **info)
    mon.true("umanip:fidelity-bound", d <= 1 + 1e-9, d=d)
    if len(m) == 1 or m[1] < 0.98 * m[0]:
        mon.le("umanip:fidelity", abs(w - M.lam), 1e-8, eigenvalue=True, **info)
        d2, w2, X = a.fidelity_per_site(b, full_output=True, left=left, **kw)
        mon.le("umanip:fidelity", abs(d2 - d) + abs(w2 - w), 1e-8, full=True, **info)
        X = np.asarray(X).reshape(a.D, b.D)
        mon.le("umanip:fidelity-vector", eigen_check(a.A, b.A, X, w2, left, LL) / abs(X).max(), 1e-7, **info)
    mon.true("umanip:fidelity-reads-only", all(np.array_equal(x, y) for x, y in zip(snap, a.A + b.A)))
    d3, _ = a.fidelity_per_site(a)
    mon.le("umanip:fidelity", abs(d3 - 1), 1e-8, same=True)


def run_align(case, rng, mon):
    As, U, inf = uni.draw(rng, mon, full_rank=1e-6)
    L, D = inf["L"], inf["D"]
    a = uni.make(mu.EvoMPS_MPS_Uniform, As, symm_gauge=bool(rng.randint(2)))
    a.update()
    # the same state in another gauge with other phases
    G = [uni.cplx(rng, D, D) + 2 * np.eye(D) for _ in range(L)]
    if max(np.linalg.cond(g) for g in G) > 50:
        G = [np.linalg.qr(g)[0] for g in G]
    ph = np.exp(2j * np.pi * rng.rand(L))
    Bs = [ph[k] * np.einsum('ab,sbc,cd->sad', np.linalg.inv(G[k - 1]), As[k], G[k]) for k in range(L)]
    b = uni.make(mu.EvoMPS_MPS_Uniform, Bs, symm_gauge=bool(rng.randint(2)))
    form = ["cf", "none", "lcf"][rng.randint(3)]
    b.update(restore_CF=form == "cf")
    if form == "lcf":
        b.restore_LCF()
    mon.nontrivial = D > 1
    mon.state(*As)
    mon.event("align:" + form)
    t = copy.deepcopy(a)
    phi = t.phase_align(b)
    M = dn.Uniform(t.A, b.A)
    mon.le("umanip:phase-align", abs(M.lam - 1), T, **inf)
    mon.le("umanip:phase-align", dist(As, t.A), T, state=True, **inf)
    mon.le("umanip:phase-align", abs(abs(phi) - 1), T, phi=True, **inf)
    t = copy.deepcopy(a)
    A0 = [x.copy() for x in t.A]
    res = t.gauge_align(b, tol=1e-9)
    mon.true("umanip:gauge-align-found", res is not None, **inf)
    if res is None:
        return
    g, gi, phi = res
    err = max(abs(x - y).max() / abs(y).max() for x, y in zip(t.A, b.A))
    mon.le("umanip:gauge-align", err, 1e-6, form=form, **inf)
    for k in range(L):
        mon.le("umanip:gauge-align", abs(g[k].dot(gi[k]) - np.eye(D)).max(), 1e-7, inverse=True, **inf)
        want = np.einsum('ab,sbc,cd->sad', gi[k - 1], A0[k], g[k])
        if k == 0:
            want = want * np.conj(phi) / abs(phi)
        mon.le("umanip:gauge-align", abs(want - t.A[k]).max(), 1e-7, returned=True, k=k, **inf)
    valid(mon, t)
    # a different state is refused and left alone
    c = mu.EvoMPS_MPS_Uniform(D, inf["q"], L=L, do_update=False)
    for k in range(L):
        c.A[k][:] = As[k] + 0.3 * uni.cplx(rng, *As[k].shape) * np.linalg.norm(As[k]) / np.sqrt(As[k].size)
    V = dn.Uniform(c.A)
    if inf["q"] > 1 and V.gap > 0.05 and dn.uniform_ray_distance(As, c.A) > 1e-6:
        c.update()
        t = copy.deepcopy(a)
        mon.true("umanip:gauge-align-refused", t.gauge_align(c) is None and
                 all(np.array_equal(x, y) for x, y in zip(a.A, t.A)))


if __name__ == "__main__":
    sys.exit(core.main(sys.modules["__main__"], sys.argv[1:]))
