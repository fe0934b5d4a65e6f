"""P02: after restoring canonical form the canonical conditions hold and the
stored environments are those of the stored tensors (finite chains)."""
import sys
import numpy as np
from mon import core, dense as dn, gen, watch, finite
import evoMPS.mps_gen as mg
import evoMPS.tdvp_gen as tg

ID = "P02"
RULE = ("A case is one random open chain (see mon/gen.py) put through update()/restore_RCF()/restore_LCF() with "
        "random options in both canonical forms; l, r are recomputed from the tensors and the canonical "
        "conditions judged on them; non-trivial if at least one bond has dimension > 1.")
REQUIRED_RULES = ["environments-match:l", "environments-match:r", "canonical:right-orthonormal",
                  "canonical:left-orthonormal", "canonical:right-diagonal", "canonical:left-diagonal",
                  "canonical:right-trace", "canonical:left-trace", "canonical:right-positive",
                  "canonical:order", "canonical:idempotent", "report:right-orthonormal", "report:left-trace",
                  "report:left-positive", "report:left-diagonal", "report:norm"]
ASSUMPTIONS = ["restore_*CF(use_QR=False) is only judged on states whose Schmidt ratio exceeds 1e-2 "
               "(it pseudo-inverts the environments)"]


def cases(tier, seed):
    k = 1 if tier == "quick" else 8
    rng = np.random.RandomState(seed * 17 + 2)
    out = []
    for i in range(240 * k):
        out.append({"kind": "history", "seed": int(rng.randint(1 << 30)), "form": ["right", "left"][i % 2],
                    "tdvp": bool(i % 5 == 4), "sanity": bool(i % 7 == 0), "cost": 2})
    for i in range(140 * k):
        out.append({"kind": "restore", "seed": int(rng.randint(1 << 30))})
    for i in range(40 * k):
        out.append({"kind": "report", "seed": int(rng.randint(1 << 30))})
    return out


def run(case, mon):
    rng = np.random.RandomState(case["seed"])
    globals()["run_" + case["kind"]](case, rng, mon)


def run_history(case, rng, mon):
    N, D, q, kind, A = finite.rand_state(rng, Nmin=2 if case["tdvp"] else 1, over=0.15)
    mon.info.update(N=N, D=D, q=q, kind=kind)
    if case["tdvp"]:
        ham, _ = finite.rand_ham(rng, N, q, 2)
        s = finite.make(tg.EvoMPS_TDVP_Generic, A, N, D, q, ham)
        s.gauge_fixing = case["form"]
    else:
        s = finite.make(mg.EvoMPS_MPS_Generic, A, N, D, q)
    s.canonical_form = case["form"]
    s.sanity_checks = case["sanity"]
    watch.watch_finite(mon, s, state=False)
    mon.nontrivial = max(D) > 1
    for step in range(4):
        o = rng.randint(6)
        if o == 0:
            s.update()
        elif o == 1:
            s.update(restore_CF=True, normalize=False)
        elif o == 2:
            s.update(auto_truncate=True)
        elif o == 3:
            s.update(auto_truncate=True, restore_CF_after_trunc=False)
        elif o == 4:
            s.update(restore_CF=False)
        else:
            s.update(restore_CF=False, normalize=False)
        if rng.rand() < 0.3:
            n = rng.randint(1, N + 1)
            s.A[n] = s.A[n] + 0.3 * gen.cplx(rng, *s.A[n].shape) * np.abs(s.A[n]).max()
        if rng.rand() < 0.3:
            s.canonical_form = ["right", "left"][rng.randint(2)]
    s.update()
    l, r = watch.envs(s.A, N)
    for n in range(1, N):
        d = np.diag((l if s.canonical_form == 'right' else r)[n]).real
        mon.le("canonical:order", max(0, -np.diff(d).min()) if len(d) > 1 else 0, 1e-9, n=n)
    A1 = gen.copyA(s.A)
    lam = [np.sort(np.abs(np.diag((l if s.canonical_form == 'right' else r)[n]))) for n in range(N + 1)]
    s.update()
    l, r = watch.envs(s.A, N)
    for n in range(N + 1):
        lam2 = np.sort(np.abs(np.diag((l if s.canonical_form == 'right' else r)[n])))
        mon.true("canonical:idempotent", lam[n].shape == lam2.shape, n=n)
        if lam[n].shape == lam2.shape:
            mon.le("canonical:idempotent", np.abs(lam2 - lam[n]).max(), 1e-9, n=n)
    del A1


def run_restore(case, rng, mon):
    kinds = ['random', 'real', 'product', 'ghz', 'padded', 'w', 'scaled']
    N, D, q, kind, A = finite.rand_state(rng, kinds, over=0.15)
    mon.info.update(N=N, D=D, q=q, kind=kind)
    mon.nontrivial = max(D) > 1
    fr = gen.full_rank(A, N)
    for form in ("RCF", "LCF"):
        dg = 'diag_l' if form == 'RCF' else 'diag_r'
        up = 'update_l' if form == 'RCF' else 'update_r'
        for opts in ({}, {'use_QR': False}, {dg: False}, {dg: False, up: False}, {'normalize_mps': False},
                     {'normalize_mps': False, 'use_QR': False}, {dg: False, 'use_QR': False}):
            if opts.get('use_QR') is False and fr < 1e-2:
                continue
            s = finite.make(mg.EvoMPS_MPS_Generic, A, N, D, q)
            s.sanity_checks = bool(case["seed"] % 3 == 0)
            if opts.get('use_QR') is False:
                s.update(restore_CF=False, normalize=False)
            n0 = np.linalg.norm(dn.dense_state(s.A)) ** 2 if opts.get('normalize_mps') is False else 1.0
            getattr(s, "restore_" + form)(**opts)
            mon.event("restore_" + form)
            watch.judge_canonical(mon, s, "right" if form == "RCF" else "left", n0, diag=opts.get(dg, True))
            if opts.get(up, True):
                watch.judge_envs(mon, s, "environments-match")
            else:
                l, r = watch.envs(s.A, N)
                for n in range(N + 1):
                    a, b = (s.r[n], r[n]) if form == "RCF" else (s.l[n], l[n])
                    mon.close("environments-match:" + ("r" if form == "RCF" else "l"), np.asarray(a), b, 1e-9, n=n)


def run_report(case, rng, mon):
    """check_RCF() reports each broken condition, wherever on the chain it is broken."""
    N, D, q, kind, A = finite.rand_state(rng, ['random', 'real'], Nmin=2)
    mon.info.update(N=N, D=D, q=q, kind=kind)
    mon.nontrivial = max(D) > 1
    fr = gen.full_rank(A, N)
    s = finite.make(mg.EvoMPS_MPS_Generic, A, N, D, q)
    s.restore_RCF()
    l, r = watch.envs(s.A, N)
    ok = s.check_RCF()
    mon.event("check_RCF")
    mon.true("report:right-orthonormal", bool(ok[0]), ok=ok)
    mon.true("report:left-diagonal", bool(ok[3]), ok=ok)
    if fr > 1e-4:
        mon.true("report:left-positive", bool(ok[2]), ok=ok)
    if max(abs(np.trace(l[n]) - 1) for n in range(N + 1)) < 2e-15:
        mon.true("report:left-trace", bool(ok[1]), ok=ok)
        mon.true("report:norm", bool(ok[4]), ok=ok)
    for n in range(1, N):
        d = s.A[n].shape[2]
        for what in ("scale", "gauge", "rotate"):
            t = finite.make(mg.EvoMPS_MPS_Generic, s.A, N, D, q)
            if what == "scale":
                G = 1.5 * np.eye(d)
            elif what == "gauge":
                G = gen.cplx(rng, d, d) + 2 * np.eye(d)
            else:
                if d == 1:
                    continue
                G = np.linalg.qr(gen.cplx(rng, d, d))[0]
            t.A[n] = np.einsum('sab,bc->sac', t.A[n], G)
            t.A[n + 1] = np.einsum('ab,sbc->sac', np.linalg.inv(G), t.A[n + 1])
            t.update(restore_CF=False, normalize=False)
            l, r = watch.envs(t.A, N)
            got = t.check_RCF()
            mon.event("check_RCF:" + what)
            if max(np.abs(r[m] - np.eye(r[m].shape[0])).max() for m in range(1, N + 1)) > 1e-6:
                mon.true("report:right-orthonormal", not got[0], n=n, what=what)
            if max(abs(np.trace(l[m]) - 1) for m in range(1, N + 1)) > 1e-6:
                mon.true("report:left-trace", not got[1], n=n, what=what)
            if max(np.abs(l[m] - np.diag(np.diag(l[m]))).max() for m in range(1, N + 1)) > 1e-3:
                mon.true("report:left-diagonal", not got[3], n=n, what=what)
    # wrong norm: only l_N deviates
    t = finite.make(mg.EvoMPS_MPS_Generic, s.A, N, D, q)
    t.A[1] = t.A[1] * 1.1
    t.update(restore_CF=False, normalize=False)
    got = t.check_RCF()
    mon.true("report:norm", not got[4], what="norm")
    mon.true("report:left-trace", not got[1], what="norm")
    # a bond padded with a direction the state does not use: l is singular there
    n = rng.randint(1, N)
    t = finite.make(mg.EvoMPS_MPS_Generic, s.A, N, D, q)
    l, r = watch.envs(t.A, N)
    t.l[n] = np.diag(np.append(np.diag(l[n])[:-1], -1e-3)).astype(complex)
    for m in range(N + 1):
        if m != n:
            t.l[m] = l[m].copy()
        t.r[m] = r[m].copy()
    mon.true("report:left-positive", not t.check_RCF()[2], n=n)


if __name__ == "__main__":
    sys.exit(core.main(sys.modules["__main__"], sys.argv[1:]))
