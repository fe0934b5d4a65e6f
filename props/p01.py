"""P01: gauge changes (update / canonical-form restoration / lossless
truncation) never change the physical state of a finite chain."""
import sys
import numpy as np
from mon import core, dense as dn, gen, watch, finite
import evoMPS.mps_gen as mg
import evoMPS.tdvp_gen as tg

ID = "P01"
RULE = ("A case is one random open chain (length 1-8, mixed site dimensions 1-4, random/real/rescaled/"
        "graded/product/GHZ/W/rank-deficient tensors) driven through a random history of update(), "
        "restore_*CF(), tensor edits and truncation options; non-trivial if the chain has at least one "
        "bond and the state before the event was not already canonical.")
REQUIRED_RULES = ["update:ray-preserved", "update:normalised", "update:norm-kept", "restore:ray-preserved",
                  "bond-dimensions-in-sync", "randomize:normalised", "product-state", "initial-state", "initial-bond-dimensions", "may-grow",
                  "simple_renorm"]
ASSUMPTIONS = ["dense state vectors of dimension <= 600 are contracted with numpy.einsum in double precision",
               "auto-truncation may change the ray by 3e-7: the code discards squared Schmidt values <= 1e-15"]


def cases(tier, seed):
    k = 1 if tier == "quick" else 8
    rng = np.random.RandomState(seed * 17 + 1)
    out = []
    for i in range(260 * k):
        out.append({"kind": "history", "seed": int(rng.randint(1 << 30)), "form": ["right", "left"][i % 2],
                    "tdvp": bool(i % 5 == 4), "sanity": bool(i % 7 == 0), "cost": 2})
    for i in range(120 * k):
        out.append({"kind": "restore", "seed": int(rng.randint(1 << 30))})
    for i in range(60 * k):
        out.append({"kind": "init", "seed": int(rng.randint(1 << 30))})
    return out


def run(case, mon):
    rng = np.random.RandomState(case["seed"])
    globals()["run_" + case["kind"]](case, rng, mon)


def run_history(case, rng, mon):
    N, D, q, kind, A = finite.rand_state(rng, Nmin=2 if case["tdvp"] else 1, over=0.15)
    mon.info.update(N=N, D=D, q=q, kind=kind)
    if case["tdvp"]:
        ham, _ = finite.rand_ham(rng, N, q, 2)
        s = finite.make(tg.EvoMPS_TDVP_Generic, A, N, D, q, ham)
    else:
        s = finite.make(mg.EvoMPS_MPS_Generic, A, N, D, q)
    s.canonical_form = case["form"]
    s.sanity_checks = case["sanity"]
    if case["tdvp"]:
        s.gauge_fixing = case["form"]
    watch.watch_finite(mon, s, canon=False)
    mon.nontrivial = N > 1
    for step in range(5):
        o = rng.randint(7)
        if o == 0:
            s.update()
        elif o == 1:
            s.update(restore_CF=True, normalize=False)
        elif o == 2:
            s.update(auto_truncate=True)
        elif o == 3:
            s.update(auto_truncate=True, restore_CF_after_trunc=False)
        elif o == 4:
            s.update(restore_CF=False)
        elif o == 5:
            s.update(restore_CF=False, normalize=False)
        else:
            # scramble the gauge on every bond, then restore
            for n in range(1, N):
                d = s.A[n].shape[2]
                G = gen.cplx(rng, d, d) + 2 * np.eye(d)
                s.A[n] = np.einsum('sab,bc->sac', s.A[n], G)
                s.A[n + 1] = np.einsum('ab,sbc->sac', np.linalg.inv(G), s.A[n + 1])
            s.canonical_form = ["right", "left"][rng.randint(2)]
            s.update()
        if rng.rand() < 0.35:
            # edit a tensor
            n = rng.randint(1, N + 1)
            s.A[n] = s.A[n] + 0.3 * gen.cplx(rng, *s.A[n].shape) * np.abs(s.A[n]).max()
            mon.event("edit")


def run_restore(case, rng, mon):
    kinds = ['random', 'real', 'product', 'ghz', 'padded', 'w', 'scaled']
    N, D, q, kind, A = finite.rand_state(rng, kinds, over=0.15)
    mon.info.update(N=N, D=D, q=q, kind=kind)
    mon.nontrivial = N > 1
    fr = gen.full_rank(A, N)
    for form in ("RCF", "LCF"):
        dg = 'diag_l' if form == 'RCF' else 'diag_r'
        up = 'update_l' if form == 'RCF' else 'update_r'
        for opts in ({}, {'use_QR': False}, {dg: False}, {dg: False, up: False}, {'normalize_mps': False},
                     {'normalize_mps': False, 'use_QR': False}):
            if opts.get('use_QR') is False and fr < 1e-2:
                continue
            s = finite.make(mg.EvoMPS_MPS_Generic, A, N, D, q)
            if opts.get('use_QR') is False:
                s.update(restore_CF=False, normalize=False)
            v0 = dn.dense_state(s.A)
            getattr(s, "restore_" + form)(**opts)
            v1 = dn.dense_state(s.A)
            mon.event("restore_" + form)
            mon.le("restore:ray-preserved", dn.ray_distance(v0, v1), 1e-9, opts=opts, form=form)
            want = np.linalg.norm(v0) if opts.get('normalize_mps') is False else 1.
            mon.le("restore:norm", (np.linalg.norm(v1) - want) / want, 1e-9, opts=opts, form=form)
            watch.judge_shapes(mon, s)
            # renormalisation by one factor leaves the ray alone
            if opts.get(dg, True):
                s.simple_renorm()
                v2 = dn.dense_state(s.A)
                mon.le("simple_renorm", dn.ray_distance(v0, v2), 1e-9, opts=opts, form=form)
                mon.le("simple_renorm", np.linalg.norm(v2) - 1, 1e-9, opts=opts, form=form)


def largest_D(D, q):
    """The largest bond dimensions not above D that a chain with sites q can use."""
    N = len(D) - 1
    out = []
    for n in range(N + 1):
        best = None
        for m in range(N + 1):
            lo, hi = min(m, n), max(m, n)
            p = D[m]
            for k in range(lo + 1, hi + 1):
                p *= q[k]
            best = p if best is None else min(best, p)
        out.append(int(best))
    return out


def run_init(case, rng, mon):
    N, D, q = gen.rand_chain_shape(rng)
    mon.nontrivial = N > 1
    want = [1] + [d + rng.randint(0, 3) for d in D[1:-1]] + [1] if N > 1 else D
    s = mg.EvoMPS_MPS_Generic(N, list(want), q)
    # documented: a hard-coded state with norm 1, every site tensor usable
    mx = gen.max_D(q[1:])
    mon.true("initial-state", all(s.D[n] <= mx[n] for n in range(N + 1)), D=list(s.D), mx=mx)
    # requested bond dimensions are honoured up to what the neighbouring bonds and the site
    # dimensions allow, and no further
    D2 = [1] + [int(rng.randint(1, 9)) for n in range(N - 1)] + [1]
    for Dr in (want, D2):
        u = mg.EvoMPS_MPS_Generic(N, list(Dr), q)
        exp = largest_D(Dr, q)
        mon.true("initial-bond-dimensions", [int(d) for d in u.D[:N + 1]] == exp and
                 [u.get_D(n) for n in range(N + 1)] == exp, D=list(u.D), want=list(Dr), exp=exp, q=q)
        for Dm in (1, 2, 3, int(rng.randint(1, 12)), max(exp), max(mx)):
            room = largest_D([1] + [Dm] * (N - 1) + [1], q)
            mon.true("may-grow", bool(u.maxD_is_less_than(Dm)) == any(exp[n] < room[n] for n in range(N + 1)),
                     D=exp, Dmax=Dm, room=room)
    v = dn.dense_state(s.A)
    mon.true("initial-state", np.linalg.norm(v) > 1e-6)
    watch.watch_finite(mon, s, canon=False)
    s.update()
    s.randomize()
    mon.le("randomize:normalised", np.linalg.norm(dn.dense_state(s.A)) - 1, 1e-9)
    s.add_noise(fac=0.1)
    mon.le("randomize:normalised", np.linalg.norm(dn.dense_state(s.A)) - 1, 1e-9)
    # product state
    psi = [gen.cplx(rng, q[n]) for n in range(1, N + 1)]
    t = mg.EvoMPS_MPS_Generic(N, D, q)
    t.set_state_product(psi)
    w = np.ones(1)
    for p in psi:
        w = np.kron(w, p)
    mon.le("product-state", dn.ray_distance(w, dn.dense_state(t.A)), 1e-9, q=q)
    # state from a list of tensors, also with redundantly large bonds
    for D2 in (D, [1] + [d + int(rng.randint(0, 4)) for d in D[1:-1]] + [1] if N > 1 else D):
        A = gen.rand_tensors(rng, N, D2, q, 'random')
        keep = gen.copyA(A)
        u = mg.mps_from_tensors_gen(A)
        mon.le("state-from-tensors", dn.ray_distance(dn.dense_state(keep), dn.dense_state(u.A)), 1e-9, D=D2)
        t = mg.EvoMPS_MPS_Generic(N, D, q)
        t.set_state_from_tensors(A)
        mon.le("state-from-tensors", dn.ray_distance(dn.dense_state(keep), dn.dense_state(t.A)), 1e-9, D=D2)
        mon.true("state-from-tensors:argument-untouched", all(np.array_equal(a, b) for a, b in zip(A[1:], keep[1:])))
    mon.state(w / np.linalg.norm(w))


if __name__ == "__main__":
    sys.exit(core.main(sys.modules["__main__"], sys.argv[1:]))
