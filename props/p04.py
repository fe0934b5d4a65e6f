"""P04: Schmidt coefficients / entropy are those of the state vector; truncation
keeps the dominant Schmidt subspace and auto-truncation is lossless."""
import sys
import numpy as np
from mon import core, dense as dn, gen, finite, watch
import evoMPS.mps_gen as mg
import evoMPS.tdvp_gen as tg

ID = "P04"
RULE = ("A case is one random finite chain in a random canonical form: Schmidt spectra and entropies at every cut, "
        "truncation of one bond, of random sets of bonds and of no bond, auto-truncation of rank-deficient states, "
        "with full and minimal updates; non-trivial if some bond has dimension > 1.")
REQUIRED_RULES = ["schmidt", "entropy", "truncate:one-bond-optimal", "truncate:bound", "truncate:dims",
                  "truncate:nothing", "auto:dims", "auto:state", "trunc-update:envs:l", "auto:threshold"]
ASSUMPTIONS = ["Schmidt values are compared to 1e-9 absolute on squared values"]
T = 1e-9


def cases(tier, seed):
    k = 1 if tier == "quick" else 8
    rng = np.random.RandomState(seed * 17 + 4)
    out = []
    for i in range(150 * k):
        out.append({"kind": "spectrum", "seed": int(rng.randint(1 << 30)), "form": ["right", "left"][i % 2]})
    for i in range(200 * k):
        out.append({"kind": "truncate", "seed": int(rng.randint(1 << 30)), "form": ["right", "left"][i % 2]})
    for i in range(120 * k):
        out.append({"kind": "auto", "seed": int(rng.randint(1 << 30)), "form": ["right", "left"][i % 2]})
    return out


def run(case, mon):
    rng = np.random.RandomState(case["seed"])
    globals()["run_" + case["kind"]](case, rng, mon)


def start(case, rng, mon, kinds=None, **kw):
    N, D, q, kind, A = finite.rand_state(rng, kinds, **kw)
    mon.info.update(N=N, D=D, q=q, kind=kind)
    s = finite.make(mg.EvoMPS_MPS_Generic, A, N, D, q)
    s.canonical_form = case["form"]
    mon.nontrivial = max(D) > 1
    return N, q, s


def run_spectrum(case, rng, mon):
    N, q, s = start(case, rng, mon)
    m = rng.randint(3)
    if m == 0:
        s.update(restore_CF=False)
    elif m == 1:
        s.update(auto_truncate=True)
    else:
        s.update()
    psi = dn.dense_state(s.A)
    mon.state(psi)
    for n in range(0, N + 1):
        want = dn.schmidt(psi, n, q[1:]) ** 2
        lam = np.asarray(s.schmidt_sq(n))
        mon.le("schmidt", np.abs(lam.imag).max(), T)
        got = np.sort(lam.real)[::-1]
        k = max(len(want), len(got))
        a, b = np.zeros(k), np.zeros(k)
        a[:len(got)] = got
        b[:len(want)] = want
        mon.le("schmidt", np.abs(a - b).max(), T, n=n, m=int(m))
        p = want[want > 1e-14]
        S = -np.sum(p * np.log2(p))
        mon.le("entropy", s.entropy(n) - S, 1e-8, n=n, m=int(m))
        S2, lam2 = s.entropy(n, ret_schmidt_sq=True)
        mon.le("entropy", S2 - S, 1e-8, n=n)
        mon.le("schmidt", np.abs(np.sort(np.asarray(lam2).real)[::-1] - got).max(), T)
        mon.event("cut")


def run_truncate(case, rng, mon):
    N, q, s = start(case, rng, mon, ['random', 'real', 'graded', 'padded', 'scaled'], Nmin=2)
    s.update()
    psi = dn.dense_state(s.A)
    A0 = gen.copyA(s.A)
    D0 = np.array(s.D)
    qs = q[1:]

    def fresh():
        t = finite.make(mg.EvoMPS_MPS_Generic, A0, N, list(D0), q)
        t.canonical_form = case["form"]
        t.update()
        return t

    def discarded(nD):
        return [np.sort(dn.schmidt(psi, n, qs))[::-1][nD[n]:] for n in range(N + 1)]

    def judge(t, nD, rule_state=True):
        v = dn.dense_state(t.A)
        f2 = abs(np.vdot(psi, v)) ** 2 / np.linalg.norm(v) ** 2
        w = [float(np.sum(d ** 2)) for d in discarded(nD)]
        nb = sum(1 for x, y in zip(nD, D0) if x < y)
        if nb == 1 and rule_state:
            mon.le("truncate:one-bond-optimal", f2 - (1 - sum(w)), T, nD=list(nD))
        # ||psi - P psi||^2 <= sum_n w_n  for the (unnormalised) projected state
        mon.le("truncate:bound", max(0., (1 - f2) - sum(w)), T + 0.0, nD=list(nD), w=w)
        mon.event("truncation")
        return v

    # one bond
    cand = [n for n in range(1, N) if D0[n] > 1]
    plans = []
    if cand:
        n = cand[rng.randint(len(cand))]
        nD = D0.copy()
        nD[n] = rng.randint(1, D0[n])
        plans.append(nD)
        nD = D0.copy()
        for n in cand:
            nD[n] = rng.randint(1, D0[n] + 1)
        if not np.all(nD == D0):
            plans.append(nD)
    for nD in plans:
        t = fresh()
        keep = nD.copy()
        t.truncate(nD)
        mon.true("truncate:argument-untouched", np.array_equal(keep, nD))
        mon.true("truncate:dims", all(a <= b for a, b in zip(t.D, nD)), D=list(t.D), nD=list(nD))
        judge(t, nD)
        mon.le("truncate:normalised", np.linalg.norm(dn.dense_state(t.A)) - 1, T)
        watch.judge_shapes(mon, t)
        watch.judge_envs(mon, t, "truncate:envs")
        watch.judge_canonical(mon, t, case["form"])
        # tensors only
        t = fresh()
        t.truncate(nD, update=False)
        mon.true("truncate:dims", list(t.D) == list(nD), D=list(t.D), nD=list(nD))
        judge(t, nD)
    # nothing to truncate: legal, and a no-op
    t = fresh()
    t.truncate(D0.copy())
    mon.le("truncate:nothing", dn.ray_distance(psi, dn.dense_state(t.A)), T)
    t = fresh()
    data = t.truncate(list(D0), update=False, return_update_data=True)
    t._update_after_truncate(*data)
    mon.le("truncate:nothing", dn.ray_distance(psi, dn.dense_state(t.A)), T)
    watch.judge_envs(mon, t, "trunc-update:envs")
    mon.state(psi)


def run_auto(case, rng, mon):
    N, q, s = start(case, rng, mon, ['padded', 'ghz', 'w', 'product', 'padded', 'random'], Nmin=2)
    s.update()
    psi = dn.dense_state(s.A)
    qs = q[1:]
    # judge the discarding rule itself only where the spectrum is unambiguous
    spec = [dn.schmidt(psi, n, qs) ** 2 for n in range(N + 1)]
    rank = [int(np.sum(x > 1e-10)) for x in spec]
    amb = any(np.any((x > 1e-15) & (x < 1e-10)) for x in spec)
    opts = [dict(auto_truncate=True), dict(auto_truncate=True, restore_CF_after_trunc=False),
            dict(auto_truncate=True, normalize=False)][rng.randint(3)]
    if opts.get("normalize") is False and rng.rand() < 0.5:
        s.A[1] = s.A[1] * 10. ** rng.uniform(-9, 3)
    s.zero_tol = 1e-12      # well above rounding noise, below every real weight
    s.update(**opts)
    v = dn.dense_state(s.A)
    mon.le("auto:state", dn.ray_distance(psi, v), 3e-6, opts=opts)
    if not amb:
        mon.true("auto:dims", [int(x) for x in s.D] == rank, D=[int(x) for x in s.D], rank=rank, opts=opts)
    if np.linalg.norm(v) < 2:
        watch.judge_envs(mon, s, "trunc-update:envs")
    watch.judge_shapes(mon, s)
    mon.state(psi)
    mon.event("auto")
    # explicit threshold: exactly the Schmidt weights above it survive
    A = gen.rand_tensors(rng, N, [1] + [int(d) for d in gen.max_D(qs)[1:-1]] + [1], q, 'graded')
    t = mg.EvoMPS_MPS_Generic(N, [1] + [1000] * (N - 1) + [1], q)
    t.set_state_from_tensors(A, do_update=False)
    t.canonical_form = case["form"]
    t.update()
    v0 = dn.dense_state(t.A)
    tol = 10. ** rng.uniform(-4, -1.5)
    spec = [dn.schmidt(v0, n, qs) ** 2 for n in range(N + 1)]
    if all(np.all(np.abs(x / tol - 1) > 1e-3) for x in spec) and all(x.max() > tol for x in spec):
        want = [int(np.sum(x > tol)) for x in spec]
        D1 = [int(x) for x in t.D]
        did = t.auto_truncate(update=False, zero_tol=tol)
        mon.true("auto:threshold", [int(x) for x in t.D] == want, D=[int(x) for x in t.D], want=want, tol=tol)
        mon.true("auto:threshold", bool(did) == (want != D1), did=bool(did), want=want, D=D1)


if __name__ == "__main__":
    sys.exit(core.main(sys.modules["__main__"], sys.argv[1:]))
