"""P13: expectation values, correlations and spectra of uniform states."""
import copy
import sys
import numpy as np
from mon import core, dense as dn, gen, uni
import evoMPS.mps_uniform as mu

ID = "P13"
RULE = ("A case is one random unit cell, a random form of the state (symmetric / right / left canonical, or only "
        "normalised) and random operators (complex, callable, product form); every public query is compared at every "
        "site offset with the dense transfer operator of the original tensors; non-trivial if the bond dimension "
        "exceeds 1.")
REQUIRED_RULES = ["uexpect:1s", "uexpect:2s", "uexpect:2s_tp", "uexpect:3s", "uexpect:1s_1s", "uexpect:correlation",
                  "uexpect:string", "uexpect:density", "uexpect:occupancy", "uexpect:entropy",
                  "uspec:correlation-length", "uspec:gap", "uspec:string-per-site", "uspec:string-symmetry",
                  "uspec:sum-symmetry", "uexpect:reads-only"]
ASSUMPTIONS = ["leading transfer eigenvalue separated by a relative gap > 0.05",
               "values are compared to 1e-7 (relative to the operator norm)"]
T = 1e-7


def cases(tier, seed):
    k = 1 if tier == "quick" else 10
    rng = np.random.RandomState(seed * 37 + 13)
    out = []
    for i in range(120 * k):
        out.append({"kind": "expect", "seed": int(rng.randint(1 << 30)), "form": ["scf", "rcf", "lcf", "none"][i % 4]})
    for i in range(60 * k):
        out.append({"kind": "spectrum", "seed": int(rng.randint(1 << 30)), "big": i % 4 == 0})
    for i in range(60 * k):
        out.append({"kind": "symmetry", "seed": int(rng.randint(1 << 30)), "u1": bool(i % 2)})
    return out


def run(case, mon):
    rng = np.random.RandomState(case["seed"])
    np.random.seed(case["seed"] & 0x7fffffff)
    globals()["run_" + case["kind"]](case, rng, mon)


def put(As, form):
    s = uni.make(mu.EvoMPS_MPS_Uniform, As, symm_gauge=form in ("scf", "none"))
    if form in ("none", "lcf"):
        s.update(restore_CF=False)
        if form == "lcf":
            s.restore_LCF()
    else:
        s.update()
    return s


def fun(op):
    """The operator as a function of its indices."""
    op = np.asarray(op)
    return lambda *a: op[tuple(int(x) for x in a)]


def run_expect(case, rng, mon):
    lowrank = case["form"] in ("scf", "none") and rng.rand() < 0.3
    As, U, inf = uni.draw(rng, mon, full_rank=None if lowrank else 1e-6)
    s = put(As, case["form"])
    mon.event("form:" + case["form"])
    q, L, D = s.q, s.L, s.D
    mon.nontrivial = D > 1
    mon.state(*As)
    snap = [a.copy() for a in s.A] + [uni.full(x) for x in s.l + s.r]
    real = rng.rand() < 0.2
    o1, o1b = dn.rand_op(rng, [q], real=real), dn.rand_op(rng, [q], herm=rng.rand() < 0.5)
    o2, o3 = dn.rand_op(rng, [q] * 2), dn.rand_op(rng, [q] * 3, real=real)
    f = (lambda o: fun(o)) if rng.rand() < 0.35 else (lambda o: o)
    tp = [[dn.rand_op(rng, [q]), dn.rand_op(rng, [q])] for _ in range(rng.randint(1, 4))]
    ks = list(rng.permutation(L))
    for k in ks:
        k = int(k)
        info = dict(k=k, **inf)
        mon.le("uexpect:1s", abs(s.expect_1s(f(o1), k) - U.expect(o1, k)), T, **info)
        mon.le("uexpect:2s", abs(s.expect_2s(f(o2), k) - U.expect(o2, k)), T, **info)
        mon.le("uexpect:2s_tp", abs(s.expect_2s_tp(tp, k) -
                                    U.expect(sum(dn.two_site(a, b) for a, b in tp), k)), T, **info)
        mon.le("uexpect:3s", abs(s.expect_3s(f(o3), k) - U.expect(o3, k)), T, **info)
        d = int(rng.randint(1, 6))
        want = [U.expect(o1.dot(o1b), k)]
        for j in range(1, d + 1):
            want.append(U.expect_chain([(o1, 1)] + ([(None, j - 1)] if j > 1 else []) + [(o1b, 1)], k))
        got = s.expect_1s_1s(f(o1), f(o1b), d, k, return_intermediates=True)
        mon.true("uexpect:shape", len(got) == d + 1, got=len(got))
        mon.le("uexpect:1s_1s", abs(np.asarray(got) - want).max(), T, d=d, **info)
        mon.le("uexpect:1s_1s", abs(s.expect_1s_1s(f(o1), f(o1b), d, k) - want[-1]), T, d=d, single=True, **info)
        ob = gen.partner(rng, o1) if rng.rand() < 0.7 else o1b
        c, e1, e2 = s.correlation_1s_1s(o1, ob, d, k, return_exvals=True)
        x1 = [U.expect(o1, k + j) for j in range(d + 1)]
        x2 = [U.expect(ob, k + j) for j in range(d + 1)]
        w = [U.expect(o1.dot(ob), k)] + [U.expect_chain([(o1, 1)] + ([(None, j - 1)] if j > 1 else []) + [(ob, 1)], k)
                                         for j in range(1, d + 1)]
        mon.le("uexpect:correlation", abs(np.asarray(c) - [w[j] - x1[0] * x2[j] for j in range(d + 1)]).max(), T, **info)
        mon.le("uexpect:correlation", max(abs(np.asarray(e1) - x1).max(), abs(np.asarray(e2) - x2).max()), T, ex=True,
               **info)
        u = np.linalg.qr(dn.rand_op(rng, [q]))[0] if rng.rand() < 0.5 else o1b
        st = np.asarray(s.expect_string_1s(f(u), k, d))
        want = [U.expect_chain([(u, 1)] * j, k) for j in range(1, len(st) + 1)]
        mon.true("uexpect:string-lengths", len(st) >= d, got=len(st))
        mon.le("uexpect:string", abs(st - want).max(), T, **info)
        rho = U.rdm(k, 1)
        mon.le("uexpect:density", abs(s.density_1s(k) - rho).max(), T, **info)
        mon.le("uexpect:occupancy", abs(s.basis_occupancy(k) - np.diag(rho)).max(), T, **info)
        sq = U.schmidt_sq(k)
        sq = sq[sq > 1e-14]
        S, lam = s.entropy(k, ret_schmidt_sq=True)
        mon.le("uexpect:entropy", abs(S + (sq * np.log2(sq)).sum()), 1e-6, **info)
        mon.le("uexpect:entropy", abs(np.sort(np.real(lam))[::-1][:len(sq)] - sq).max(), T, spectrum=True, **info)
    now = [a for a in s.A] + [uni.full(x) for x in s.l + s.r]
    mon.true("uexpect:reads-only", all(np.array_equal(a, b) for a, b in zip(snap, now)))


def run_spectrum(case, rng, mon):
    if case["big"]:
        As, U, inf = uni.draw(rng, mon, Lmax=2, qmin=2, Dmin=9, Dmax=10, styles=['random', 'real'])
    else:
        As, U, inf = uni.draw(rng, mon, Dmax=6)
    s = put(As, ["scf", "rcf", "none"][rng.randint(3)] if min(inf["rank"]) == inf["D"] else "scf")
    L, q = s.L, s.q
    mon.nontrivial = s.D > 1
    mon.state(*As)
    if s.D > 1:
        w = np.sort(abs(U.w / U.lam))[::-1]
        if w[1] > 1e-4:
            want = -L / np.log(w[1])
            # the iterative solver may settle on either of two eigenvalues of nearly equal size
            slack = 1.1 * (w[1] - w[w > w[1] - 0.01].min())
            xi = s.correlation_length()
            mon.le("uspec:correlation-length", abs(np.exp(-L / xi) - w[1]), 1e-6 + slack, **inf)
            mon.le("uspec:gap", abs(s.calc_E_gap() - (1 - w[1])), 1e-7 + slack, **inf)
    else:
        mon.true("uspec:correlation-length", s.correlation_length() == 0, D=1)
    op = dn.rand_op(rng, [q])
    if rng.rand() < 0.5:
        op = np.linalg.qr(op)[0]
    Ao = [np.einsum('st,tab->sab', op, a) for a in As]
    V = dn.Uniform(Ao, As)
    m = np.sort(abs(V.w))[::-1]
    if len(m) > 1 and m[1] > 0.97 * m[0]:
        mon.event("string:degenerate-skipped")
        return
    ev = s.expect_string_per_site_1s(fun(op) if rng.rand() < 0.3 else op)
    want = V.lam / U.lam
    mon.le("uspec:string-per-site", abs(np.asarray(ev).ravel()[0] ** L - want), 1e-6, **inf)


def charged(rng, u1):
    """A cell with an exact on-site symmetry: (As, onsite charges, bond charges)."""
    for _ in range(200):
        L = rng.randint(1, 4)
        D = rng.randint(1, 7)
        if u1:
            q = 3
            ns = np.array([-1, 0, 1])
            nb = [rng.randint(0, 3, D) for _ in range(L)]
            ok = lambda a, s, b: a + s == b
        else:
            q = rng.randint(2, 4)
            ns = rng.randint(0, 2, q)
            nb = [rng.randint(0, 2, D) for _ in range(L)]
            ok = lambda a, s, b: (a + s + b) % 2 == 0
        As = []
        for k in range(L):
            a = uni.cplx(rng, q, D, D) / np.sqrt(D)
            for s in range(q):
                for i in range(D):
                    for j in range(D):
                        if not ok(nb[k - 1][i], ns[s], nb[k][j]):
                            a[s, i, j] = 0
            As.append(a)
        U = dn.Uniform(As)
        if not U.gap > 0.05 or abs(U.lam) < 1e-6:
            continue
        if min(U.schmidt_sq(k).min() for k in range(L)) < 1e-5:
            continue
        return As, U, ns, nb
    raise core.Inconclusive("no symmetric state drawn")


def sector_schmidt(U, nb, k):
    """[(squared Schmidt value, bond charge)] on the bond right of cell site k."""
    x, y = U.lr(k)
    D = U.As[0].shape[1]
    l, r = x.reshape(D, D), y.reshape(D, D)
    M = l.T.dot(r)
    out = []
    for c in sorted(set(nb)):
        i = np.where(nb == c)[0]
        out += [(w.real, c) for w in np.linalg.eigvals(M[np.ix_(i, i)])]
    t = sum(w for w, _ in out)
    return sorted((w / t, c) for w, c in out)


def run_symmetry(case, rng, mon):
    As, U, ns, nb = charged(rng, case["u1"])
    D = As[0].shape[1]
    L = len(As)
    # hide the block structure behind a random gauge
    G = [np.linalg.qr(uni.cplx(rng, D, D))[0] for _ in range(L)]
    hidden = [np.einsum('ab,sbc,cd->sad', G[k - 1].conj().T, As[k], G[k]) for k in range(L)]
    form = ["scf", "rcf"][rng.randint(2)]
    s = put(hidden, form)
    mon.info.update(L=L, D=D, u1=case["u1"], form=form)
    mon.nontrivial = D > 1
    mon.state(*As)
    if case["u1"]:
        theta = rng.uniform(0.2, 1.2)
        op = np.diag(np.exp(1j * theta * ns))
    else:
        op = np.diag((-1. + 0j) ** ns)
    W = np.linalg.qr(dn.rand_op(rng, [len(ns)]))[0] if rng.rand() < 0.5 else np.eye(len(ns))
    s2 = s
    if not np.allclose(W, np.eye(len(ns))):
        hidden = [np.einsum('st,tab->sab', W, a) for a in hidden]
        s2 = put(hidden, form)
        op = W.dot(op).dot(W.conj().T)
        ns_op = W.dot(np.diag(ns)).dot(W.conj().T)
    else:
        ns_op = np.diag(ns).astype(complex)
    for k in range(L):
        sec = sector_schmidt(U, nb[k - 1], k - 1)
        w = np.array([x[0] for x in sec])
        if D > 1 and np.diff(w).min() < 1e-5:
            mon.event("symmetry:near-degenerate-skipped")
            continue
        c = np.array([x[1] for x in sec])
        o = np.argsort(np.real(np.asarray(s2.schmidt_sq((k - 1) % L))))
        ex, ol, g = s2.expect_string_1s_density_hc(op, k, return_g=True)
        mon.event("symmetry:string")
        mon.le("uspec:string-symmetry", abs(abs(ol) - 1), 1e-6, k=k)
        ex = np.asarray(ex)[o]
        if case["u1"]:
            # string over the right half: total charge N - n(bond), up to a phase
            want = np.exp(-1j * theta * (c - c[-1]))
        else:
            want = (-1.) ** (c - c[-1])
        mon.le("uspec:string-symmetry", abs(ex - want).max(), 1e-5, k=k)
        g = np.asarray(g)[np.ix_(o, o)]
        mon.le("uspec:string-symmetry", abs(g - np.diag(want)).max(), 1e-5 / np.sqrt(w.min()), k=k, offdiag=True)
        if case["u1"]:
            ex, tot, g = s2.expect_sum_1s_density_hc(ns_op, k, tol=1E-12, return_g=True)
            mon.event("symmetry:sum")
            mon.le("uspec:sum-symmetry", abs(tot), 1e-7, k=k)
            ex = np.asarray(ex)[o]
            want = -(c - (w * c).sum())
            mon.le("uspec:sum-symmetry", abs(ex - want).max(), 1e-5 / np.sqrt(w.min()), k=k)


if __name__ == "__main__":
    sys.exit(core.main(sys.modules["__main__"], sys.argv[1:]))
