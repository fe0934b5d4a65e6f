"""P03: finite-chain expectation values, correlations, strings, MPO values and
reduced density matrices equal those of the state vector."""
import sys
import numpy as np
from mon import core, dense as dn, gen, finite
import evoMPS.mps_gen as mg
import evoMPS.tdvp_gen as tg

ID = "P03"
RULE = ("A case is one random up-to-date finite chain (mixed site dimensions, both canonical forms, several state "
        "families) on which every expectation-value entry point is read with random non-Hermitian operators at "
        "random sites; non-trivial if the state is entangled (some bond > 1).")
REQUIRED_RULES = ["expect_1s", "expect_2s", "expect_3s", "expect_1s_1s", "correlation_1s_1s", "expect_string_1s",
                  "expect_MPO", "density_1s", "density_2s", "hermitian-real", "density:trace"]
ASSUMPTIONS = ["dense state vectors of dimension <= 600; operators op[s,t] = <s|op|t>"]
T = 1e-9


def cases(tier, seed):
    k = 1 if tier == "quick" else 8
    rng = np.random.RandomState(seed * 17 + 3)
    return [{"kind": "expect", "seed": int(rng.randint(1 << 30)), "form": ["right", "left"][i % 2],
             "tdvp": bool(i % 6 == 5)} for i in range(320 * k)]


def as_callable(op):
    tab = np.array(op)
    return lambda *idx: tab[tuple(int(i) for i in idx)]


def rand_mpo(rng, q, n1, k):
    W, M = [], [1] + [int(x) for x in rng.randint(1, 4, k - 1)] + [1]
    for j in range(k):
        W.append(gen.cplx(rng, M[j], M[j + 1], q[n1 + j], q[n1 + j]) / np.sqrt(M[j] * q[n1 + j]))
    return W


def run(case, mon):
    rng = np.random.RandomState(case["seed"])
    N, D, q, kind, A = finite.rand_state(rng, Nmin=2 if case["tdvp"] else 1)
    mon.info.update(N=N, D=D, q=q, kind=kind)
    if case["tdvp"]:
        s = finite.make(tg.EvoMPS_TDVP_Generic, A, N, D, q, finite.rand_ham(rng, N, q, 2)[0])
        s.gauge_fixing = case["form"]
    else:
        s = finite.make(mg.EvoMPS_MPS_Generic, A, N, D, q)
    s.canonical_form = case["form"]
    mode = rng.randint(4)
    if mode == 0:
        s.update(restore_CF=False)
    elif mode == 1:
        s.update(auto_truncate=True)
    else:
        s.update()
    mon.nontrivial = max(s.D) > 1
    psi = dn.dense_state(s.A)
    mon.le("normalised", np.linalg.norm(psi) - 1, T)
    mon.state(psi)
    qs = q[1:]

    def ex(op, n):
        return np.vdot(psi, dn.apply_local(op, n, psi, qs))

    def maybe_callable(op):
        return as_callable(op) if rng.rand() < 0.3 else op

    for n in range(1, N + 1):
        op = dn.rand_op(rng, [q[n]])
        mon.close("expect_1s", s.expect_1s(maybe_callable(op), n), ex(op, n), T, n=n)
        h = dn.rand_op(rng, [q[n]], herm=True)
        mon.le("hermitian-real", np.imag(s.expect_1s(h, n)), T)
        rho = s.density_1s(n)
        mon.close("density_1s", rho, dn.rdm(psi, n, 1, qs), T, n=n)
        mon.le("density:trace", np.trace(rho) - 1, T)
        mon.event("read", 3)
    for n in range(1, N):
        op = dn.rand_op(rng, [q[n], q[n + 1]])
        AA = None
        if rng.rand() < 0.3:
            AA = np.einsum('sab,tbc->stac', s.A[n], s.A[n + 1])
        mon.close("expect_2s", s.expect_2s(maybe_callable(op), n, AA=AA) if AA is not None else
                  s.expect_2s(maybe_callable(op), n), ex(op, n), T, n=n, AA=AA is not None)
        mon.event("read")
    for n in range(1, N - 1):
        if q[n] * q[n + 1] * q[n + 2] > 40:
            continue
        op = dn.rand_op(rng, [q[n], q[n + 1], q[n + 2]])
        mon.close("expect_3s", s.expect_3s(maybe_callable(op), n), ex(op, n), T, n=n)
        mon.event("read")
    if N >= 2:
        for _ in range(2):
            n1 = rng.randint(1, N)
            n2 = rng.randint(n1 + 1, N + 1)
            o1, o2 = dn.rand_op(rng, [q[n1]]), dn.rand_op(rng, [q[n2]])
            want = np.vdot(psi, dn.apply_local(o1, n1, dn.apply_local(o2, n2, psi, qs), qs))
            mon.close("expect_1s_1s", s.expect_1s_1s(maybe_callable(o1), maybe_callable(o2), n1, n2), want, T,
                      n1=n1, n2=n2)
            if q[n1] * q[n2] <= 16:
                rho = s.density_2s(n1, n2)
                mon.close("density_2s", rho, dn.rdm_pair(psi, n1, n2, qs), T, n1=n1, n2=n2, q=q)
                mon.le("density:trace", np.trace(rho) - 1, T)
            mon.event("read", 2)
    # runs of equal site dimension: correlations and strings
    n1 = rng.randint(1, N + 1)
    d = 0
    while n1 + d + 1 <= N and q[n1 + d + 1] == q[n1]:
        d += 1
    if d >= 1:
        d = rng.randint(1, d + 1)
        o1 = dn.rand_op(rng, [q[n1]])
        o2 = gen.partner(rng, o1)
        e1 = [ex(o1, n1 + j) for j in range(d + 1)]
        e2 = [ex(o2, n1 + j) for j in range(d + 1)]
        cc = []
        for j in range(d + 1):
            p = dn.apply_local(o1, n1, dn.apply_local(o2, n1 + j, psi, qs), qs)
            cc.append(np.vdot(psi, p) - e1[0] * e2[j])
        got = s.correlation_1s_1s(o1, o2, n1, d)
        mon.close("correlation_1s_1s", got, cc, T, n1=n1, d=d)
        got, g1, g2 = s.correlation_1s_1s(o1, o2, n1, d, return_exvals=True)
        mon.close("correlation_1s_1s", got, cc, T, n1=n1, d=d)
        mon.close("correlation:exvals", g1, e1, T, n1=n1, d=d)
        mon.close("correlation:exvals", g2, e2, T, n1=n1, d=d)
        inter = s.expect_1s_1s(o1, o2, n1, n1 + d, return_intermediates=True)
        mon.close("expect_1s_1s", inter, np.array(cc) + e1[0] * np.array(e2), T, what="intermediates")
        mon.event("read", 4)
    # strings of the same operator on 1..d sites from n
    dd = 1
    while n1 + dd <= N and q[n1 + dd] == q[n1] and dd < 5:
        dd += 1
    o = dn.rand_op(rng, [q[n1]])
    want, p = [], psi
    for j in range(dd):
        p = dn.apply_local(o, n1 + j, p, qs)
        want.append(np.vdot(psi, p))
    mon.close("expect_string_1s", s.expect_string_1s(maybe_callable(o), n1, dd), want, T, n1=n1, d=dd)
    # matrix product operators on any block
    for _ in range(2):
        k = rng.randint(1, min(N, 5) + 1)
        n1 = rng.randint(1, N - k + 2)
        W = rand_mpo(rng, q, n1, k)
        want = np.vdot(psi, dn.mpo_full(W, n1, qs).dot(psi))
        mon.close("expect_MPO", s.expect_MPO(W, n1), want, T, n1=n1, k=k)
        mon.event("read")


if __name__ == "__main__":
    sys.exit(core.main(sys.modules["__main__"], sys.argv[1:]))
