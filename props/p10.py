"""P10: split-step (DMRG-like) time integrators of finite chains."""
import copy
import sys
import numpy as np
import scipy.linalg as la
from mon import core, dense as dn, gen, finite, watch
import evoMPS.tdvp_gen as tg
import evoMPS.mps_gen as mg
from evoMPS import split_step as ss
from evoMPS import sexpmv
from props import p07
from props.p03 import rand_mpo

ID = "P10"
RULE = ("A case is one random finite chain and Hamiltonian (two- / three-site terms, array / callable / gaps, or an MPO) "
        "evolved by one of the split-step integrators; non-trivial if the state moves.")
REQUIRED_RULES = ["split:energy", "split:norm", "split:reversible", "split:full-D-exact", "split:order",
                  "evolve1:energy", "evolve1:agrees", "evolve1:reversible", "evolve2:energy", "evolve2:exact",
                  "evolve2:bond-limits", "evolve2:cap-energy", "split:H_expect", "split:mpo", "evolve:mpo",
                  "evolve:steps-compose", "split:imag-decreases", "callback:per-step"]
ASSUMPTIONS = ["Hermitian Hamiltonians; purely real or purely imaginary time steps; runs in which the Krylov solver "
               "reports non-convergence are not judged for accuracy"]


def cases(tier, seed):
    k = 1 if tier == "quick" else 8
    rng = np.random.RandomState(seed * 29 + 10)
    out = []

    def add(kind, n, cost):
        for i in range(n * k):
            out.append({"kind": kind, "seed": int(rng.randint(1 << 30)), "gauge": "right",
                        "sites": 2 + i % 2, "dir": "real", "cost": cost})
    add("split", 60, 3)
    add("order", 24, 6)
    add("evolve1", 50, 3)
    add("evolve2", 50, 6)
    add("mpo", 24, 3)
    return out


MON = None


def run(case, mon):
    global MON
    MON = mon
    rng = np.random.RandomState(case["seed"])
    globals()["run_" + case["kind"]](case, rng, mon)


vec = p07.vec


def energy(H, psi):
    return (np.vdot(psi, H.dot(psi)) / np.vdot(psi, psi)).real


def chain(case, rng, full=False, maxdim=100, Nmax=6, style=None):
    """Any state at all (also product, rank deficient, padded)."""
    sites = case["sites"]
    N, D, q, kind, A = finite.rand_state(rng, Nmin=sites, Nmax=Nmax, maxdim=maxdim)
    if full:
        D = gen.max_D(q[1:])
        kind, A = "random", gen.rand_tensors(rng, N, D, q, "random")
    ham, terms = finite.rand_ham(rng, N, q, sites, style or ["array", "gaps", "callable"][rng.randint(3)])
    H = dn.ham_full(terms, q[1:])
    return N, D, q, kind, A, ham, terms, H


def quiet(f, *a, **kw):
    if getattr(f, "__name__", "") != "take_step_split":
        return f(*a, print_progress=False, **kw)
    # Known finding: take_step_split() unpacks five of the six values returned
    # by gexpmv().  It is reported, and the step is redone with a stand-in
    # that drops the sixth value, so that everything else is still judged.
    t = f.__self__
    saved = copy.deepcopy(t.__dict__)
    try:
        return f(*a, print_progress=False, **kw)
    except ValueError as e:
        if "too many values to unpack" not in str(e):
            raise
        MON.true("split:gexpmv-unpack", False, exception=str(e))
    t.__dict__.clear()
    t.__dict__.update(saved)
    full = sexpmv.gexpmv
    sexpmv.gexpmv = lambda *x, **y: full(*x, **y)[:5]
    try:
        return f(*a, print_progress=False, **kw)
    finally:
        sexpmv.gexpmv = full


def run_split(case, rng, mon):
    full = bool(rng.rand() < 0.4)
    N, D, q, kind, A, ham, terms, H = chain(case, rng, full)
    mon.info.update(N=N, D=D, q=q, kind=kind)
    s = finite.make(tg.EvoMPS_TDVP_Generic, A, N, D, q, ham, ham_sites=case["sites"])
    s.update()
    nrm = max(1e-3, np.linalg.norm(H, 2))
    psi0 = vec(s)
    E0 = energy(H, psi0)
    h = rng.uniform(0.02, 0.5) / nrm
    k = rng.randint(1, 4)
    t = copy.deepcopy(s)
    for i in range(k):
        quiet(t.take_step_split, 1j * h)
        mon.event("step")
        psi = vec(t)
        mon.le("split:norm", abs(np.linalg.norm(psi) - 1), 1e-9)
        mon.le("split:energy", abs(energy(H, psi) - E0) / nrm, 1e-9, h=h)
        mon.le("split:H_expect", abs(t.H_expect - E0) / nrm, 1e-9)
        if rng.rand() < 0.5:
            t.update()
    psi = vec(t)
    mon.nontrivial = dn.ray_distance(psi, psi0) > 1e-3
    mon.state(psi0, psi)
    if full:
        w = la.expm(-1j * h * k * H).dot(psi0)
        mon.le("split:full-D-exact", dn.ray_distance(psi, w), 1e-7, k=k)
    # the scheme is symmetric: stepping back returns to the start
    for i in range(k):
        t.update()
        quiet(t.take_step_split, -1j * h)
    if gen.full_rank(s.A, N) > 1e-2 and list(t.D) == list(s.D):
        mon.le("split:reversible", dn.ray_distance(vec(t), psi0), 1e-7, k=k)
    # imaginary time
    t = copy.deepcopy(s)
    E = E0
    for i in range(2):
        quiet(t.take_step_split, 0.02 / nrm)
        t.update()
        mon.true("split:imag-decreases", t.H_expect.real <= E + 1e-9 * nrm, before=E, after=t.H_expect.real)
        E = t.H_expect.real
    mon.true("split:imag-bound", E >= np.linalg.eigvalsh(H)[0] - 1e-9 * nrm)
    if full:
        w = la.expm(-0.04 / nrm * H).dot(psi0)
        mon.le("split:full-D-exact", dn.ray_distance(vec(t), w), 1e-7, imag=True)


def run_order(case, rng, mon):
    """Both one-site integrators against the dense TDVP flow."""
    N, D, q, terms, s = p07.setup(dict(case, gauge="right"), rng, 32, Nmax=5)
    s.canonical_form = "right"
    s.update()
    mon.info.update(N=N, D=D, q=q)
    H = dn.ham_full(terms, q[1:])
    nrm = max(1e-3, np.linalg.norm(H, 2))
    fl = p07.Flow(terms, q[1:])
    B = s.calc_B()
    d = [1j, -1j, 1.0][rng.randint(3)]
    h = 0.12 / nrm
    psi0 = vec(s)
    arr = [None] + [terms.get(n) for n in range(1, N - case["sites"] + 2)] + [None] * case["sites"]
    m = mg.EvoMPS_MPS_Generic(N, D, q)
    m.set_state_from_tensors(gen.copyA(s.A), do_update=False)
    m.update()
    nogaps = all(arr[n] is not None for n in range(1, N - case["sites"] + 2))
    for which in ("split", "evolve1"):
        if which == "evolve1" and not nogaps:
            continue
        hh = h
        for attempt in range(6):
            e = []
            for f in (1.0, 0.5):
                ref = dn.dense_state(fl.run(s.A, d * hh * f, 6))
                if which == "split":
                    t = copy.deepcopy(s)
                    quiet(t.take_step_split, d * hh * f)
                else:
                    t = copy.deepcopy(m)
                    quiet(ss.evolve_split, t, arr, case["sites"], d * hh * f, 1, expm_max_steps=200)
                e.append(dn.ray_distance(vec(t), ref))
                mon.event("step")
            if e[0] < 2e-5:
                break
            hh *= 0.5
        if e[1] > 1e-9:
            mon.le("split:order", max(0.0, 3 - np.log2(e[0] / e[1])), 0.5, errs=e, which=which, dir=str(d))
        else:
            mon.le("split:order", 0.0, 0.5)
        mon.le("split:error", e[0], 2e-5, which=which)
    mon.nontrivial = abs(s.eta) > 1e-3
    mon.state(psi0)


def tally(log):
    def cb(mps, i, expm_info_lr=None, expm_info_rl=None, truncerr_lr=None, truncerr_rl=None):
        log.append((i, expm_info_lr, expm_info_rl, np.array(truncerr_lr), np.array(truncerr_rl)))
    return cb


def converged(log):
    for _, a, b, _, _ in log:
        for x in list(a) + list(b):
            if x and not x["converged"]:
                return False
    return True


def run_evolve1(case, rng, mon):
    full = bool(rng.rand() < 0.4)
    N, D, q, kind, A, ham, terms, H = chain(case, rng, full, style="array")
    sites = case["sites"]
    mon.info.update(N=N, D=D, q=q, kind=kind)
    s = finite.make(mg.EvoMPS_MPS_Generic, A, N, D, q)
    s.update()
    nrm = max(1e-3, np.linalg.norm(H, 2))
    psi0 = vec(s)
    E0 = energy(H, psi0)
    h = rng.uniform(0.02, 0.3) / nrm
    k = rng.randint(1, 4)
    t = copy.deepcopy(s)
    log = []
    quiet(ss.evolve_split, t, ham, sites, 1j * h, k, cb_func=tally(log), expm_max_steps=100)
    mon.event("step", k)
    mon.true("callback:per-step", [x[0] for x in log] == list(range(k)), got=[x[0] for x in log])
    psi = vec(t)
    mon.nontrivial = dn.ray_distance(psi, psi0) > 1e-3
    mon.state(psi0, psi)
    mon.le("evolve1:norm", abs(np.linalg.norm(psi) - 1), 1e-9)
    mon.le("evolve1:energy", abs(energy(H, psi) - E0) / nrm, 1e-9, h=h)
    watch.judge_shapes(mon, t)
    if not converged(log):
        mon.event("krylov:not-converged")
        return
    if full:
        w = la.expm(-1j * h * k * H).dot(psi0)
        mon.le("evolve1:full-D-exact", dn.ray_distance(psi, w), 1e-7, k=k)
    # agrees with the integrator of the TDVP class
    u = finite.make(tg.EvoMPS_TDVP_Generic, s.A, N, list(s.D), q, ham, ham_sites=sites)
    u.update()
    for i in range(k):
        quiet(u.take_step_split, 1j * h)
        u.update(auto_truncate=False)
    if gen.full_rank(s.A, N) > 1e-2:
        mon.le("evolve1:agrees", dn.ray_distance(vec(u), psi), 1e-7, k=k)
    # k steps at once = k times one step
    u = copy.deepcopy(s)
    for i in range(k):
        quiet(ss.evolve_split, u, ham, sites, 1j * h, 1, expm_max_steps=100)
    mon.le("evolve:steps-compose", dn.ray_distance(vec(u), psi), 1e-7, k=k)
    quiet(ss.evolve_split, u, ham, sites, -1j * h, k, expm_max_steps=100)
    if gen.full_rank(s.A, N) > 1e-2:
        mon.le("evolve1:reversible", dn.ray_distance(vec(u), psi0), 1e-7, k=k)


def run_evolve2(case, rng, mon):
    N, D, q, kind, A, ham, terms, H = chain(case, rng, maxdim=27, Nmax=4, style="array")
    sites = case["sites"]
    mon.info.update(N=N, D=D, q=q, kind=kind)
    s = finite.make(mg.EvoMPS_MPS_Generic, A, N, D, q)
    s.update()
    nrm = max(1e-3, np.linalg.norm(H, 2))
    psi0 = vec(s)
    E0 = energy(H, psi0)
    sw = bool(rng.rand() < 0.4)
    # no cap: grows to the full bond dimension, then exact
    kw = [dict(), dict(D_max=200, min_schmidt=1e-15), dict(D_max=64)][rng.randint(3)]
    t = copy.deepcopy(s)
    h = rng.uniform(0.02, 0.3) / nrm
    log = []
    quiet(ss.evolve_split, t, ham, sites, 1j * h, 2, two_site=True, switch_to_1site=sw, cb_func=tally(log),
          expm_max_steps=100, **kw)
    mon.event("step", 2)
    watch.judge_shapes(mon, t)
    psi = vec(t)
    mon.nontrivial = dn.ray_distance(psi, psi0) > 1e-3
    mon.state(psi0, psi)
    mon.le("evolve2:norm", abs(np.linalg.norm(psi) - 1), 1e-9)
    mon.le("evolve2:energy", abs(energy(H, psi) - E0) / nrm, 1e-8, kw=kw, sw=sw)
    # once the bonds are saturated both half-sweeps are exact
    t.update()
    full = gen.max_D(q[1:])
    A2 = gen.rand_tensors(rng, N, full, q, "random")
    f = finite.make(mg.EvoMPS_MPS_Generic, A2, N, full, q)
    f.update()
    p0 = vec(f)
    log = []
    quiet(ss.evolve_split, f, ham, sites, 1j * h, 2, two_site=True, switch_to_1site=sw, cb_func=tally(log),
          expm_max_steps=100, **kw)
    if converged(log):
        mon.le("evolve2:exact", dn.ray_distance(vec(f), la.expm(-2j * h * H).dot(p0)), 1e-7, kw=kw, sw=sw)
    # capped: limits hold, dropped weight is reported, energy stays close
    Dm = rng.randint(1, 5)
    ms = [0.0, 1e-10, 1e-3][rng.randint(3)]
    t = copy.deepcopy(s)
    log = []
    quiet(ss.evolve_split, t, ham, sites, 1j * h, 1, two_site=True, D_max=Dm, min_schmidt=ms, cb_func=tally(log),
          expm_max_steps=100, switch_to_1site=sw)
    touched = range(1, N)
    mon.true("evolve2:bond-limits", all(t.D[n] <= Dm for n in touched) or sw and all(
        t.D[n] <= max(Dm, s.D[n]) for n in touched), D=list(t.D), Dm=Dm, sw=sw)
    watch.judge_shapes(mon, t)
    psi = vec(t)
    mon.le("evolve2:norm", abs(np.linalg.norm(psi) - 1), 1e-9)
    err = np.sqrt(sum(np.nansum(x[3] ** 2) + np.nansum(x[4] ** 2) for x in log))
    k = sum(np.count_nonzero(np.nan_to_num(x[3])) + np.count_nonzero(np.nan_to_num(x[4])) for x in log)
    if err < 1e-13 and not sw:
        mon.event("capped:nothing dropped")
    mon.le("evolve2:cap-energy", abs(energy(H, psi) - E0) / nrm, 1e-8 + 4 * np.sqrt(max(k, 1)) * err, Dm=Dm, ms=ms, dropped=err)
    if ms:
        t.update()


def run_mpo(case, rng, mon):
    """HMPO alone, with the local Hamiltonian, and in both functions."""
    N, D, q, kind, A, ham, terms, H = chain(case, rng, maxdim=48, Nmax=5, style="array")
    sites = case["sites"]
    full = gen.max_D(q[1:])
    A = gen.rand_tensors(rng, N, full, q, "random")
    mon.info.update(N=N, D=full, q=q)
    W = rand_mpo(rng, q, 1, N)
    M = dn.mpo_full(W, 1, q[1:])
    # Hermitian MPO W + W^dagger
    Wd = [np.conj(np.transpose(x, (0, 1, 3, 2))) for x in W]
    V = [None]
    for j, (x, y) in enumerate(zip(W, Wd)):
        l = 1 if j == 0 else x.shape[0] + y.shape[0]
        r = 1 if j == N - 1 else x.shape[1] + y.shape[1]
        v = np.zeros((l, r) + x.shape[2:], dtype=complex)
        if j == 0 and j == N - 1:
            v[0, 0] = x[0, 0] + y[0, 0]
        else:
            v[:x.shape[0], :x.shape[1]] += x
            v[l - y.shape[0]:, r - y.shape[1]:] += y
        V.append(v)
    M = M + M.conj().T
    c = 1. / max(1e-3, np.linalg.norm(M, 2))
    V[1] = V[1] * c
    M = M * c
    local = bool(rng.rand() < 0.5)
    Ht = M + H if local else M
    nrm = max(1e-3, np.linalg.norm(Ht, 2))
    h = rng.uniform(0.02, 0.3) / nrm
    s = finite.make(tg.EvoMPS_TDVP_Generic, A, N, full, q, ham, ham_sites=sites)
    s.update()
    psi0 = vec(s)
    E0 = energy(Ht, psi0)
    want = la.expm(-1j * h * Ht).dot(psi0)
    t = copy.deepcopy(s)
    quiet(t.take_step_split, 1j * h, HMPO=V, use_local_ham=local)
    mon.event("step")
    mon.le("split:mpo", dn.ray_distance(vec(t), want), 1e-7, local=local)
    mon.le("split:H_expect", abs(t.H_expect - E0) / nrm, 1e-8, local=local, mpo=True)
    t = copy.deepcopy(s)
    log = []
    quiet(ss.evolve_split, t, ham, sites, 1j * h, 1, HMPO=V, use_local_ham=local, expm_max_steps=100, cb_func=tally(log))
    if converged(log):
        mon.le("evolve:mpo", dn.ray_distance(vec(t), want), 1e-7, local=local)
    mon.nontrivial = dn.ray_distance(want, psi0) > 1e-3
    mon.state(psi0, want)


if __name__ == "__main__":
    sys.exit(core.main(sys.modules["__main__"], sys.argv[1:]))
