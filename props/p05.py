"""P05: inner products and operator application on finite chains."""
import sys
import numpy as np
from mon import core, dense as dn, gen, finite, watch
import evoMPS.mps_gen as mg
import evoMPS.tdvp_gen as tg
from props.p03 import rand_mpo, as_callable

ID = "P05"
RULE = ("A case is a pair of random finite chains of equal length and site dimensions but different bond dimensions "
        "and canonical forms: overlaps in both directions, and random histories of single-site operators (array or "
        "callable, possibly singular) and matrix product operators on random blocks, with and without update; "
        "non-trivial if one of the states is entangled.")
REQUIRED_RULES = ["inner", "inner:conjugate-symmetric", "inner:norm", "apply_op_1s", "apply_op_MPO",
                  "apply:normalised", "apply:argument-untouched"]
ASSUMPTIONS = ["operators whose action on the state is smaller than 1e-6 in norm are skipped (no state to normalise)"]
T = 1e-9


def cases(tier, seed):
    k = 1 if tier == "quick" else 8
    rng = np.random.RandomState(seed * 17 + 5)
    out = []
    for i in range(160 * k):
        out.append({"kind": "inner", "seed": int(rng.randint(1 << 30))})
    for i in range(220 * k):
        out.append({"kind": "apply", "seed": int(rng.randint(1 << 30)), "form": ["right", "left"][i % 2],
                    "tdvp": bool(i % 6 == 5)})
    return out


def run(case, mon):
    rng = np.random.RandomState(case["seed"])
    globals()["run_" + case["kind"]](case, rng, mon)


def run_inner(case, rng, mon):
    N, D, q, kind, A = finite.rand_state(rng)
    A2 = gen.rand_tensors(rng, N, [1] + [max(1, d + int(rng.randint(-1, 2))) for d in D[1:-1]] + [1] if N > 1 else D,
                          q, ['random', 'product', 'scaled'][rng.randint(3)])
    D2 = [a.shape[1] for a in A2[1:]] + [1]
    mon.info.update(N=N, D=D, D2=D2, q=q, kind=kind)
    s = finite.make(mg.EvoMPS_MPS_Generic, A, N, D, q)
    t = finite.make(mg.EvoMPS_MPS_Generic, A2, N, D2, q)
    for x in (s, t):
        x.canonical_form = ["right", "left"][rng.randint(2)]
        m = rng.randint(3)
        if m == 0:
            x.update()
        elif m == 1:
            x.update(normalize=False)
        else:
            x.update(restore_CF=False, normalize=False)
    a, b = dn.dense_state(s.A), dn.dense_state(t.A)
    sc = np.linalg.norm(a) * np.linalg.norm(b)
    st = s.inner(t)
    # documented: s.inner(t) = <t|s>
    mon.le("inner", abs(st - np.vdot(b, a)) / sc, T)
    mon.le("inner:conjugate-symmetric", abs(st - np.conj(t.inner(s))) / sc, T)
    mon.le("inner:norm", abs(s.inner(s) - np.linalg.norm(a) ** 2) / np.linalg.norm(a) ** 2, T)
    mon.true("inner:cauchy-schwarz", abs(st) <= sc * (1 + 1e-10))
    mon.nontrivial = max(D) > 1 or max(D2) > 1
    mon.state(a, b)


def run_apply(case, rng, mon):
    N, D, q, kind, A = finite.rand_state(rng, Nmin=2 if case["tdvp"] else 1, maxdim=300)
    mon.info.update(N=N, D=D, q=q, kind=kind)
    if case["tdvp"]:
        s = finite.make(tg.EvoMPS_TDVP_Generic, A, N, D, q, finite.rand_ham(rng, N, q, 2)[0])
        s.gauge_fixing = case["form"]
    else:
        s = finite.make(mg.EvoMPS_MPS_Generic, A, N, D, q)
    s.canonical_form = case["form"]
    s.update()
    mon.nontrivial = max(D) > 1
    qs = q[1:]
    for step in range(4):
        v0 = dn.dense_state(s.A)
        upd = rng.rand() < 0.6
        if rng.rand() < 0.5:
            n = rng.randint(1, N + 1)
            op = dn.rand_op(rng, [q[n]])
            if rng.rand() < 0.3 and q[n] > 1:   # singular
                op = np.outer(gen.cplx(rng, q[n]), gen.cplx(rng, q[n]))
            keep = op.copy()
            want = dn.apply_local(op, n, v0, qs)
            if np.linalg.norm(want) < 1e-6:
                continue
            s.apply_op_1s(as_callable(op) if rng.rand() < 0.3 else op, n, do_update=upd)
            rule = "apply_op_1s"
            mon.true("apply:argument-untouched", np.array_equal(op, keep))
        else:
            k = rng.randint(1, min(N, 4) + 1)
            n = rng.randint(1, N - k + 2)
            W = rand_mpo(rng, q, n, k)
            keep = [w.copy() for w in W]
            want = dn.mpo_full(W, n, qs).dot(v0)
            if np.linalg.norm(want) < 1e-6:
                continue
            s.apply_op_MPO(W, n, do_update=upd)
            rule = "apply_op_MPO"
            mon.true("apply:argument-untouched", all(np.array_equal(x, y) for x, y in zip(W, keep)))
        v1 = dn.dense_state(s.A)
        mon.event(rule)
        if upd:
            mon.le(rule, dn.ray_distance(want, v1), T, n=n)
            mon.le("apply:normalised", np.linalg.norm(v1) - 1, T)
            watch.judge_envs(mon, s, "apply:envs")
            watch.judge_canonical(mon, s, case["form"])
        else:
            mon.le(rule, np.linalg.norm(v1 - want) / np.linalg.norm(want), T, n=n)
            if rng.rand() < 0.5:
                s.update()
                mon.le(rule, dn.ray_distance(want, dn.dense_state(s.A)), T, n=n)
        watch.judge_shapes(mon, s)
        mon.state(v1 / np.linalg.norm(v1))
        if max(s.D) > 60:
            break


if __name__ == "__main__":
    sys.exit(core.main(sys.modules["__main__"], sys.argv[1:]))
