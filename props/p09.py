"""P09: DMRG-style variational sweeps on finite chains."""
import copy
import sys
import numpy as np
from mon import core, dense as dn, gen, finite, watch
import evoMPS.tdvp_gen as tg
import evoMPS.mps_gen as mg
from evoMPS import split_step as ss
from props import p07
from props.p03 import rand_mpo

ID = "P09"
RULE = ("A case is one random finite chain and Hamiltonian (two- / three-site array, callable or with gaps, or a matrix "
        "product operator) minimised by several DMRG sweeps of one implementation; non-trivial if the energy falls.")
REQUIRED_RULES = ["sweep:never-rises", "sweep:H_expect", "sweep:norm", "sweep:bound", "sweep:canonical", "sweep:converges",
                  "one:never-rises", "one:bound", "one:converges", "two:converges", "two:bond-limits", "two:bound",
                  "two:cap-energy", "mpo:converges", "mpo:H_expect", "sweep:local-optimum", "callback:per-sweep"]
ASSUMPTIONS = ["Hermitian Hamiltonians; global convergence is required only when some site's tensor spans the whole "
               "Hilbert space (full bond dimension)"]


def cases(tier, seed):
    k = 1 if tier == "quick" else 5
    rng = np.random.RandomState(seed * 37 + 9)
    out = []

    def add(kind, n, cost):
        for i in range(n * k):
            out.append({"kind": kind, "seed": int(rng.randint(1 << 30)), "sites": 2 + i % 2, "cost": cost})
    add("sweep", 110, 3)
    add("one", 60, 3)
    add("two", 60, 4)
    add("mpo", 40, 3)
    return out


def run(case, mon):
    rng = np.random.RandomState(case["seed"])
    globals()["run_" + case["kind"]](case, rng, mon)


vec = p07.vec


def energy(H, psi):
    return (np.vdot(psi, H.dot(psi)) / np.vdot(psi, psi)).real


def chain(case, rng, full, maxdim=96, Nmax=6, style=None):
    sites = case["sites"]
    N, D, q, kind, A = finite.rand_state(rng, Nmin=sites, Nmax=Nmax, maxdim=maxdim)
    if full:
        D = gen.max_D(q[1:])
        kind, A = "random", gen.rand_tensors(rng, N, D, q, "random")
    ham, terms = finite.rand_ham(rng, N, q, sites, style or ["array", "gaps", "callable"][rng.randint(3)])
    H = dn.ham_full(terms, q[1:])
    lam = np.linalg.eigvalsh(H)
    return N, D, q, kind, A, ham, terms, H, lam


def local_grad(A, H, N, n):
    """Residual of the local eigenproblem of site n (dense)."""
    cols = []
    for i in range(A[n].size):
        B = list(A)
        b = np.zeros(A[n].size, dtype=complex)
        b[i] = 1
        B[n] = b.reshape(A[n].shape)
        cols.append(dn.dense_state(B, N))
    M = np.array(cols).T
    Q, R = np.linalg.qr(M)
    s = np.linalg.svd(M, compute_uv=False)
    if s[-1] < 1e-6 * s[0]:
        return None
    return np.linalg.eigvalsh(Q.conj().T.dot(H).dot(Q))[0]


def run_sweep(case, rng, mon):
    full = bool(rng.rand() < 0.4)
    N, D, q, kind, A, ham, terms, H, lam = chain(case, rng, full)
    mon.info.update(N=N, D=D, q=q, kind=kind)
    s = finite.make(tg.EvoMPS_TDVP_Generic, A, N, D, q, ham, ham_sites=case["sites"])
    s.update()
    scale = max(1e-3, lam[-1] - lam[0])
    E = E0 = energy(H, vec(s))
    if kind == "padded" or rng.rand() < 0.5:
        upd = lambda: s.update()
    else:
        upd = lambda: s.update(restore_CF=False)
    for i in range(4):
        s.vari_opt_ss_sweep()
        mon.event("sweep")
        psi = vec(s)
        En = energy(H, psi)
        mon.state(psi)
        mon.true("sweep:never-rises", En <= E + 1e-9 * scale, before=E, after=En, sweep=i)
        mon.true("sweep:bound", En >= lam[0] - 1e-9 * scale, E=En, ground=lam[0])
        mon.le("sweep:norm", np.linalg.norm(psi) - 1, 1e-9)
        mon.le("sweep:H_expect", abs(s.H_expect - En) / scale, 1e-9)
        watch.judge_shapes(mon, s)
        # right after a sweep the state is right-canonical without any update
        for n in range(2, N + 1):
            x = np.einsum("sab,scb->ac", s.A[n], s.A[n].conj())
            mon.le("sweep:canonical", np.abs(x - np.eye(len(x))).max(), 1e-9, n=n)
        # the last site optimised (site 1) is optimal given the others
        g = local_grad(s.A, H, N, 1)
        if g is not None:
            mon.le("sweep:local-optimum", (En - g) / scale, 1e-8, full=full)
        E = En
        upd()
        watch.watch_finite(mon, s, canon=False)
        mon.le("sweep:update-keeps-energy", (s.H_expect.real - En) / scale, 1e-8)
    if full:
        mon.le("sweep:converges", (E - lam[0]) / scale, 1e-8, E=E, ground=lam[0])
    mon.nontrivial = E < E0 - 1e-6 * scale


def tally(log):
    def cb(mps, i, expm_info_lr=None, expm_info_rl=None, truncerr_lr=None, truncerr_rl=None):
        log.append((i, np.array(truncerr_lr), np.array(truncerr_rl)))
    return cb


def run_one(case, rng, mon):
    full = bool(rng.rand() < 0.4)
    N, D, q, kind, A, ham, terms, H, lam = chain(case, rng, full, style="array")
    herm = bool(rng.rand() < 0.75)
    mon.info.update(N=N, D=D, q=q, kind=kind, herm=herm)
    s = finite.make(mg.EvoMPS_MPS_Generic, A, N, D, q)
    s.update()
    scale = max(1e-3, lam[-1] - lam[0])
    E = E0 = energy(H, vec(s))
    for i in range(3):
        log = []
        k = rng.randint(1, 3)
        ss.evolve_split(s, ham, case["sites"], 1., k, DMRG=True, print_progress=False, ham_is_Herm=herm,
                        cb_func=tally(log))
        mon.event("sweep", k)
        mon.true("callback:per-sweep", [x[0] for x in log] == list(range(k)))
        psi = vec(s)
        En = energy(H, psi)
        mon.state(psi)
        mon.true("one:never-rises", En <= E + 1e-9 * scale, before=E, after=En, sweep=i, herm=herm)
        mon.true("one:bound", En >= lam[0] - 1e-9 * scale)
        mon.le("one:norm", np.linalg.norm(psi) - 1, 1e-9)
        watch.judge_shapes(mon, s)
        E = En
        if rng.rand() < 0.5:
            s.update()
            watch.watch_finite(mon, s)
    if full:
        mon.le("one:converges", (E - lam[0]) / scale, 1e-8)
    mon.nontrivial = E < E0 - 1e-6 * scale


def run_two(case, rng, mon):
    N, D, q, kind, A, ham, terms, H, lam = chain(case, rng, False, maxdim=64, Nmax=6, style="array")
    sites = case["sites"]
    herm = bool(rng.rand() < 0.75)
    mon.info.update(N=N, D=D, q=q, kind=kind, herm=herm)
    s = finite.make(mg.EvoMPS_MPS_Generic, A, N, D, q)
    # a generic start: a special one can be orthogonal to the ground state
    B = [None] + [a + 0.05 * gen.cplx(rng, *a.shape) for a in s.A[1:]]
    s.set_state_from_tensors(B, do_update=False)
    s.update()
    scale = max(1e-3, lam[-1] - lam[0])
    E0 = energy(H, vec(s))
    sw = bool(rng.rand() < 0.3)
    t = copy.deepcopy(s)
    kw = [dict(), dict(D_max=100), dict(min_schmidt=1e-13)][rng.randint(3)]
    ss.evolve_split(t, ham, sites, 1., 4, DMRG=True, two_site=True, print_progress=False, ham_is_Herm=herm,
                    switch_to_1site=sw, **kw)
    mon.event("sweep", 4)
    psi = vec(t)
    E = energy(H, psi)
    mon.state(psi)
    mon.le("two:norm", np.linalg.norm(psi) - 1, 1e-9)
    watch.judge_shapes(mon, t)
    if not sw and min(q[1:]) > 1:     # bonds next to a trivial site cannot grow by two-site updates
        mon.le("two:converges", (E - lam[0]) / scale, 1e-8, kw=kw, herm=herm)
    mon.true("two:bound", E >= lam[0] - 1e-9 * scale)
    mon.true("two:never-rises", E <= E0 + 1e-9 * scale, before=E0, after=E, sw=sw)
    mon.nontrivial = E < E0 - 1e-6 * scale
    # capped
    Dm = rng.randint(1, 5)
    ms = [0.0, 1e-10, 1e-3][rng.randint(3)]
    log = []
    t = copy.deepcopy(s)
    k = rng.randint(1, 4)
    ss.evolve_split(t, ham, sites, 1., k, DMRG=True, two_site=True, print_progress=False, D_max=Dm, min_schmidt=ms,
                    cb_func=tally(log), ham_is_Herm=herm, switch_to_1site=sw)
    mon.event("sweep", k)
    mon.true("two:bond-limits", all(t.D[n] <= (max(Dm, s.D[n]) if sw else Dm) for n in range(1, N)), D=list(t.D), Dm=Dm)
    psi = vec(t)
    E = energy(H, psi)
    mon.le("two:norm", np.linalg.norm(psi) - 1, 1e-9)
    mon.true("two:bound", E >= lam[0] - 1e-9 * scale)
    drop = np.sqrt(sum(np.nansum(x[1] ** 2) + np.nansum(x[2] ** 2) for x in log))
    nt = sum(np.count_nonzero(np.nan_to_num(x[1])) + np.count_nonzero(np.nan_to_num(x[2])) for x in log)
    mon.true("two:cap-energy", E <= E0 + scale * (1e-8 + 4 * np.sqrt(max(1, nt)) * drop), before=E0, after=E, dropped=drop)
    watch.judge_shapes(mon, t)
    t.update()
    watch.watch_finite(mon, t)


def herm_mpo(rng, q, N):
    """Random Hermitian MPO of norm one and its dense matrix."""
    W = rand_mpo(rng, q, 1, N)
    M = dn.mpo_full(W, 1, q[1:])
    V = [None]
    for j, x in enumerate(W):
        y = np.conj(np.transpose(x, (0, 1, 3, 2)))
        l = 1 if j == 0 else x.shape[0] + y.shape[0]
        r = 1 if j == N - 1 else x.shape[1] + y.shape[1]
        v = np.zeros((l, r) + x.shape[2:], dtype=complex)
        v[:x.shape[0], :x.shape[1]] += x
        v[l - y.shape[0]:, r - y.shape[1]:] += y
        V.append(v)
    M = M + M.conj().T
    c = 1. / max(1e-3, np.linalg.norm(M, 2))
    V[1] = V[1] * c
    return V, M * c


def run_mpo(case, rng, mon):
    full = bool(rng.rand() < 0.5)
    N, D, q, kind, A, ham, terms, H, lam = chain(case, rng, full, maxdim=48, Nmax=5, style="array")
    sites = case["sites"]
    V, M = herm_mpo(rng, q, N)
    local = bool(rng.rand() < 0.5)
    Ht = M + H if local else M
    lam = np.linalg.eigvalsh(Ht)
    scale = max(1e-3, lam[-1] - lam[0])
    mon.info.update(N=N, D=D, q=q, kind=kind, local=local, full=full)
    s = finite.make(tg.EvoMPS_TDVP_Generic, A, N, D, q, ham, ham_sites=sites)
    s.update()
    E = E0 = energy(Ht, vec(s))
    t = finite.make(tg.EvoMPS_TDVP_Generic, A, N, D, q, ham, ham_sites=sites)
    t.update()
    Et = E0
    for i in range(3):
        s.vari_opt_ss_sweep(HMPO=V, use_local_ham=local)
        ss.evolve_split(t, ham, sites, 1., 1, DMRG=True, print_progress=False, HMPO=V, use_local_ham=local)
        mon.event("sweep", 2)
        for x, e, nm in ((s, E, "class"), (t, Et, "function")):
            psi = vec(x)
            En = energy(Ht, psi)
            mon.true("mpo:never-rises", En <= e + 1e-9 * scale, before=e, after=En, which=nm)
            mon.true("mpo:bound", En >= lam[0] - 1e-9 * scale)
            mon.le("mpo:norm", np.linalg.norm(psi) - 1, 1e-9)
            if nm == "class":
                mon.le("mpo:H_expect", abs(s.H_expect - En) / scale, 1e-9, local=local)
                E = En
            else:
                Et = En
            mon.state(psi)
        s.update()
        t.update()
    if full:
        mon.le("mpo:converges", (E - lam[0]) / scale, 1e-8, which="class")
        mon.le("mpo:converges", (Et - lam[0]) / scale, 1e-8, which="function")
    mon.nontrivial = E < E0 - 1e-6 * scale


if __name__ == "__main__":
    sys.exit(core.main(sys.modules["__main__"], sys.argv[1:]))
