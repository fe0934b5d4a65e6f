"""P24: saved states, checkpoints and restarts."""
import copy
import io
import os
import shutil
import sys
import tempfile
import numpy as np
from mon import core, gen, dense as dn, uni, sand, finite, tang
import evoMPS.mps_gen as mg
import evoMPS.mps_sandwich as ms
import evoMPS.mps_uniform as mu
import evoMPS.tdvp_gen as tg
import evoMPS.tdvp_sandwich as ts
import evoMPS.tdvp_uniform as tu
from . import p15, p22, p23

ID = "P24"
RULE = ("A case saves a random finite, uniform or window state in the middle of a history, loads it into other objects in every "
        "supported way and continues both; non-trivial if the state moves after it is loaded.")
REQUIRED_RULES = ["finite:state", "finite:shape", "finite:source", "finite:continue", "uniform:state", "uniform:source",
                  "uniform:continue", "uniform:userdata", "uniform:refuse", "uniform:snapshot", "uniform:expand", "uniform:truncate",
                  "uniform:q", "window:state", "window:source", "window:continue", "window:userdata", "window:counters",
                  "window:autogrow", "window:file"]
ASSUMPTIONS = ["files are those the library wrote itself, at a path with the .npy ending or in an open binary file"]


def cases(tier, seed):
    k = 1 if tier == "quick" else 10
    rng = np.random.RandomState(seed * 61 + 24)
    return [{"kind": kind, "seed": int(rng.randint(1 << 30)), "cost": 1}
            for kind, n in (("finite", 60), ("uniform", 60), ("resize", 60), ("window", 60)) for _ in range(n * k)]


def run(case, mon):
    rng = np.random.RandomState(case["seed"])
    tmp = tempfile.mkdtemp(prefix="mon-P24-")
    try:
        globals()["run_" + case["kind"]](rng, mon, tmp)
    finally:
        shutil.rmtree(tmp)


class File(object):
    """A place to save to and load from: a path, an open file or a buffer in memory."""

    def __init__(self, rng, mon, tmp, path=False):
        self.how = "path" if path else ["path", "file", "buffer"][rng.randint(3)]
        mon.event("file:" + self.how)
        self.path = os.path.join(tmp, "s%d.npy" % rng.randint(1 << 30))
        self.buf = io.BytesIO()

    def save(self, f):
        if self.how == "path":
            f(self.path)
        elif self.how == "file":
            with open(self.path, "wb") as x:
                f(x)
        else:
            f(self.buf)

    def load(self, f):
        if self.how == "path":
            return f(self.path)
        if self.how == "file":
            with open(self.path, "rb") as x:
                return f(x)
        self.buf.seek(0)
        return f(self.buf)


def same(X, Y):
    return len(X) == len(Y) and all(np.shape(a) == np.shape(b) and np.array_equal(uni.full(a), uni.full(b)) for a, b in zip(X, Y))


# ------------------------------------------------------------------ finite
def run_finite(rng, mon, tmp):
    N, D, q, kind, A = finite.rand_state(rng, kinds=["random", "canonical"] if "canonical" in gen.KINDS else ["random"], Nmax=6, maxdim=128)
    sites = 2 + int(rng.randint(2)) if N > 2 else 2
    tdvp = N >= sites and bool(rng.randint(3))
    ham, terms = finite.rand_ham(rng, N, q, sites, ["array", "gaps", "callable"][rng.randint(3)]) if tdvp else (None, None)

    def new(Dn):
        if tdvp:
            return tg.EvoMPS_TDVP_Generic(N, Dn, q, ham, ham_sites=sites)
        return mg.EvoMPS_MPS_Generic(N, Dn, q)
    s = new(D)
    s.set_state_from_tensors(gen.copyA(A), do_update=False)
    upd = bool(rng.randint(4))
    if upd:
        s.update()
    mon.info.update(N=N, D=list(map(int, D)), q=list(map(int, q)), tdvp=tdvp, upd=upd)
    scale = 1 + sum(np.linalg.norm(t.reshape(int(np.sqrt(t.size)), -1), 2) for t in terms.values()) if tdvp else 1
    dt = .05 / scale * [1, 1j][rng.randint(2)]
    if tdvp and upd and rng.randint(2):
        s.take_step(dt)
        if rng.randint(2):
            s.update()
    f = File(rng, mon, tmp)
    A0 = gen.copyA(s.A)
    psi = dn.dense_state(s.A)
    mon.state(psi)
    f.save(s.save_state)
    mon.true("finite:source", same(A0[1:], s.A[1:]))
    # into an object of other bond dimensions and another history
    t = new([1] + [int(rng.randint(1, 5)) for _ in range(N - 1)] + [1])
    if rng.randint(2):
        t.randomize()
    du = bool(rng.randint(2))
    f.load(lambda x: t.load_state(x, do_update=du))
    mon.event("load")
    mon.true("finite:shape", [int(d) for d in t.D] == [1] + [a.shape[2] for a in A0[1:]], D=str(t.D))
    if not du:
        mon.true("finite:state", same(A0[1:], t.A[1:]), what="tensors")
        t.update()
    mon.le("finite:state", dn.ray_distance(psi, dn.dense_state(t.A)), 1e-7)
    for n in range(1, N + 1):
        mon.true("finite:shape", t.A[n].shape == (t.q[n], t.D[n - 1], t.D[n]), n=n)
    mon.le("finite:state", abs(np.linalg.norm(dn.dense_state(t.A)) - 1), 1e-9, what="norm after update")
    n = int(rng.randint(1, N + 1))
    op = dn.rand_op(rng, [q[n]], herm=True)
    phi = psi / np.linalg.norm(psi)
    mon.le("finite:state", abs(t.expect_1s(op, n) - np.vdot(phi, dn.apply_local(op, n, phi, q[1:]))), 1e-8, what="expectation value")
    mon.true("finite:source", same(A0[1:], s.A[1:]), what="after loading")
    mon.nontrivial = N > 1
    if not tdvp:
        return
    # the interrupted run continues like the uninterrupted one
    rk = bool(rng.randint(2))
    for _ in range(3):
        for x in (s, t):
            x.update()
            (x.take_step_RK4 if rk else x.take_step)(dt)
    a, b = dn.dense_state(s.A), dn.dense_state(t.A)
    mon.le("finite:continue", dn.ray_distance(a, b), 1e-7, rk=rk)
    s.update()
    t.update()
    mon.le("finite:continue", abs(s.H_expect - t.H_expect) / scale, 1e-8, what="energy")


# ----------------------------------------------------------------- uniform
def uni_state(rng, mon, **kw):
    s, h, inf = p15.rand_tdvp(rng, mon, **dict(dict(Lmax=3, qmax=3, Dmax=4, full_rank=1e-3), **kw))
    s.sanity_checks = False
    s.update()
    return s, h, inf


def fresh(s, h, D=None, q=None, cls=tu.EvoMPS_TDVP_Uniform, L=None):
    t = cls(D or s.D, q or s.q, h, L=L or s.L, do_update=False)
    t.randomize(do_update=False)
    t.ham_tp = copy.deepcopy(s.ham_tp)
    return t


def run_uniform(rng, mon, tmp):
    s, h, inf = uni_state(rng, mon)
    sc = 1 + np.linalg.norm(h.reshape(int(np.sqrt(h.size)), -1), 2)
    dt = .05 / sc * [1, 1j][rng.randint(2)]
    if rng.randint(2):
        s.take_step(dt)
        s.update(restore_CF=bool(rng.randint(2)))
    A0 = [np.array(a) for a in s.A]
    mon.state(*A0)
    # userdata
    ud = [None, np.array([1., 2., 3.]), "text", {"step": 7}][rng.randint(4)]
    f = File(rng, mon, tmp)
    if rng.randint(2):
        s.userdata = ud
        f.save(s.save_state)
    else:
        f.save(lambda x: s.save_state(x, userdata=ud))
    mon.true("uniform:source", same(A0, s.A))
    way = rng.randint(3)
    if way == 0:
        ham = s.ham
        t = f.load(lambda x: tu.EvoMPS_TDVP_Uniform.from_file(x, ham, ham_sites=s.ham_sites))
        t.ham_tp = copy.deepcopy(s.ham_tp)
        mon.true("uniform:state", (t.L, t.D, t.q) == (s.L, s.D, s.q))
    else:
        t = fresh(s, h)
        if way == 1:
            t.update()
        mon.true("uniform:state", f.load(t.load_state) is True, what="return value")
    t.update()
    mon.event("load")
    d0 = dn.uniform_ray_distance(A0, t.A)
    mon.le("uniform:state", d0, 1e-7, way=way)
    mon.le("uniform:state", uni.env_errors(t) if not isinstance(uni.env_errors(t), dict) else max(uni.env_errors(t)[k] for k in ("l", "r", "norm")),
           1e-7, what="environments")
    mon.le("uniform:state", abs(t.h_expect - tang.energy(A0, h)) / sc if hasattr(t, "h_expect") else 0., 1e-7, what="energy")
    got = t.userdata
    ok = (got is None or got.dtype == object and got.item() is None) if ud is None else \
        (np.array_equal(got, ud) if isinstance(ud, np.ndarray) else np.asarray(got).item() == ud)
    mon.true("uniform:userdata", bool(ok), got=str(got), want=str(ud))
    # continue
    rk = bool(rng.randint(2))
    for x in (s, t):
        for _ in range(3):
            x.update()
            if rk:
                x.take_step_RK4(dt)
            else:
                x.take_step(dt)
        x.update()
    mon.le("uniform:continue", dn.uniform_ray_distance(s.A, t.A), 1e-6, rk=rk)
    mon.nontrivial = dn.uniform_ray_distance(A0, s.A) > 1e-6
    # a snapshot in memory is a snapshot
    B0 = [np.array(a) for a in s.A]
    snap = s.export_state()
    u = fresh(s, h)
    if rng.randint(2):
        u.import_state(s.export_state())
        mon.le("uniform:snapshot", dn.uniform_ray_distance(B0, u.A), 1e-7, what="imported")
        mon.true("uniform:snapshot", same(B0, s.A), what="source after import")
        u.take_step(dt)
        u.update()
        mon.true("uniform:snapshot", same(B0, s.A), what="source after a step of the copy")
    for _ in range(2):
        s.take_step(dt)
        s.update()
    s.import_state(snap)
    mon.event("rollback")
    mon.le("uniform:snapshot", dn.uniform_ray_distance(B0, s.A), 1e-7, what="rolled back")
    s.take_step(dt)
    s.update()
    s.import_state(snap)
    mon.le("uniform:snapshot", dn.uniform_ray_distance(B0, s.A), 1e-7, what="rolled back twice")


def run_resize(rng, mon, tmp):
    """Files whose dimensions differ from those of the loading object."""
    s, h, inf = uni_state(rng, mon, Dmin=2)
    L, q, D = s.L, s.q, s.D
    A0 = [np.array(a) for a in s.A]
    mon.state(*A0)
    mon.nontrivial = True
    f = File(rng, mon, tmp)
    f.save(s.save_state)
    h2 = lambda q: dn.rand_op(rng, [q, q], herm=True)
    what = ["expand", "truncate", "expand_q", "shrink_q", "refuse"][rng.randint(5)]
    mon.info["resize"] = what
    mon.event(what)
    if what == "expand":
        t = fresh(s, h, D=D + int(rng.randint(1, 3)))
        ok = f.load(lambda x: t.load_state(x, expand=True, refac=1e-3, imfac=1e-3))
        mon.true("uniform:expand", ok is True and t.D > D and all(a.shape == (q, t.D, t.D) for a in t.A))
        # the new entries are small perturbations
        d = dn.uniform_ray_distance(A0, t.A)
        mon.le("uniform:expand", d, .1)
        mon.le("uniform:expand", max(uni.env_errors(t)[k] for k in ("l", "r", "norm")), 1e-5, what="environments")
        # without noise: the same state in a larger space
        t = fresh(s, h, D=D + 1)
        st = f.load(lambda x: np.load(x, allow_pickle=True))
        t.import_state(st, expand=True, refac=0, imfac=0, do_update=False)
        mon.true("uniform:expand", all(np.array_equal(np.asarray(a)[:, :D, :D], b) and abs(np.asarray(a)).sum() - abs(b).sum() < 1e-10
                                       for a, b in zip(t.A, A0)), what="embedding")
    elif what == "truncate":
        Dn = int(rng.randint(1, D)) if D > 1 else 1
        t = fresh(s, h, D=Dn)
        ok = f.load(lambda x: t.load_state(x, truncate=True))
        mon.true("uniform:truncate", ok is True and all(a.shape == (q, Dn, Dn) for a in t.A))
        u = fresh(s, h)
        f.load(u.load_state)
        u.update()
        lam = [np.sort(u.schmidt_sq(k).real)[::-1] for k in range(L)]
        if Dn < D and min(l[Dn - 1] - l[Dn] for l in lam) < 1e-6:
            raise core.Inconclusive("degenerate truncation")
        if Dn < D:
            u.truncate(Dn, update=True)
            mon.le("uniform:truncate", dn.uniform_ray_distance(t.A, u.A), 1e-6, D=D, Dn=Dn)
        mon.le("uniform:truncate", max(uni.env_errors(t)[k] for k in ("l", "r", "norm")), 1e-7, what="environments")
    elif what in ("expand_q", "shrink_q"):
        qn = q + 1 + int(rng.randint(2)) if what == "expand_q" else int(rng.randint(1, q))
        hn = h2(qn)
        if what == "shrink_q":
            W = [a[:qn] for a in A0]
            if D > 1 and qn == 1:
                raise core.Inconclusive("one level")
            U = dn.Uniform(W)
            if not U.gap > .05 or min(U.schmidt_sq(k).min() for k in range(L)) < 1e-5:
                raise core.Inconclusive("projected state unsuitable")
        else:
            W = [np.concatenate([a, np.zeros((qn - q,) + a.shape[1:])]) for a in A0]
        t = tu.EvoMPS_TDVP_Uniform(D, qn, hn, L=L, do_update=False)
        t.randomize(do_update=False)
        ok = f.load(lambda x: t.load_state(x, **{what: True}))
        mon.true("uniform:q", ok is True and t.q == qn and all(a.shape == (qn, D, D) for a in t.A), q=q, qn=qn)
        mon.le("uniform:q", dn.uniform_ray_distance(W, t.A), 1e-7, q=q, qn=qn)
        mon.le("uniform:q", max(uni.env_errors(t)[k] for k in ("l", "r", "norm")), 1e-7, what="environments")
        mon.le("uniform:q", abs(t.h_expect - tang.energy(W, hn)) / (1 + abs(hn).max()) if hasattr(t, "h_expect") else 0, 1e-7, what="energy")
        t.take_step(1e-3)
        t.update()
    else:
        # mismatched without permission: refused, nothing changes
        k = rng.randint(4)
        t = fresh(s, h, D=D + 1) if k == 0 else fresh(s, h, L=L + 1) if k == 1 else fresh(s, h, D=D + 1) if k == 2 \
            else tu.EvoMPS_TDVP_Uniform(D, q + 1, h2(q + 1), L=L, do_update=False)
        t.randomize()
        B0 = [np.array(a) for a in t.A]
        kw = {} if k != 2 else {"truncate": True, "shrink_q": True}
        ok = f.load(lambda x: t.load_state(x, **kw))
        mon.true("uniform:refuse", ok is False and same(B0, t.A) and len(t.A) == t.L, k=k, ok=str(ok))


# ------------------------------------------------------------------ window
def run_window(rng, mon, tmp):
    tdvp = bool(rng.randint(3))
    if tdvp:
        s, hL, hC, hR = p23.setup(rng, mon, Nmax=4, hams=["bulk", "quench"][rng.randint(2)])
    else:
        s = p22.window(rng, mon, Nmax=4)[0]
    p22.check_cond(sand.View.of(s))
    s.update()
    L = s.uni_l.L
    if rng.randint(2):
        s.grow_left(1)
        s.update()
    if rng.randint(3) == 0:
        s.grow_right(1)
        s.update()
    sc = 1 + np.linalg.norm(hL.reshape(int(np.sqrt(hL.size)), -1), 2) if tdvp else 1
    dt = .05 / sc * [1, 1j][rng.randint(2)]
    if tdvp and rng.randint(2):
        s.take_step(dt)
        s.update()
    V = sand.View.of(s)
    a, b = 1 - L, s.N + L
    before = p22.rdms(V, a, b)
    mon.state(before[0])
    mon.nontrivial = True
    mon.info.update(tdvp=tdvp, N=s.N)
    f = File(rng, mon, tmp)
    ud = [None, np.array([1., 2.]), {"t": 3}][rng.randint(3)]
    A0 = [np.array(s.A[n]) for n in range(1, s.N + 1)] + [np.array(x) for x in s.uni_l.A] + [np.array(x) for x in s.uni_r.A]
    now = lambda: [s.A[n] for n in range(1, s.N + 1)] + list(s.uni_l.A) + list(s.uni_r.A)
    f.save(lambda x: s.save_state(x, userdata=ud))
    mon.event("save")
    mon.true("window:source", same(A0, now()))
    # another object with the same shape and other contents
    grown = (s.grown_left, s.grown_right)
    other = lambda N: scramble(rng, s, N)
    du = bool(rng.randint(2))
    t = other(s.N)
    got = f.load(lambda x: t.load_state(x, do_update=du))
    mon.event("load")
    mon.true("window:userdata", (got is None) if ud is None else np.array_equal(got, ud) if isinstance(ud, np.ndarray) else got == ud,
             got=str(got), want=str(ud))
    mon.true("window:counters", (t.grown_left, t.grown_right) == grown, got=str((t.grown_left, t.grown_right)), want=str(grown))
    mon.le("window:state", p22.dist(before, p22.rdms(sand.View.of(t), a, b)), 1e-8, du=du)
    if du:
        p22.env_rules(t, p23.Sub(mon, "window:state"))
    t.update()
    mon.le("window:state", p22.dist(before, p22.rdms(sand.View.of(t), a, b)), 1e-7, what="update")
    p22.env_rules(t, p23.Sub(mon, "window:state"))
    mon.true("window:source", same(A0, now()), what="after loading")
    if not tdvp:
        g = f.load(lambda x: ms.EvoMPS_MPS_Sandwich.from_file(x))
        mon.event("from_file")
        mon.true("window:file", g.N == s.N)
        mon.le("window:file", p22.dist(before, p22.rdms(sand.View.of(g), a, b)), 1e-8)
        g.update()
        mon.le("window:file", p22.dist(before, p22.rdms(sand.View.of(g), a, b)), 1e-7, what="update")
        p22.env_rules(g, p23.Sub(mon, "window:file"))
    else:
        rk = bool(rng.randint(2))
        for x in (s, t):
            for _ in range(3):
                x.update()
                (x.take_step_RK4 if rk else x.take_step)(dt)
            x.update()
        mon.le("window:continue", p22.dist(p22.rdms(sand.View.of(s), a, b), p22.rdms(sand.View.of(t), a, b)), 1e-6, rk=rk)
        mon.le("window:continue", abs(s.dH_expect - t.dH_expect) / sc, 1e-6, what="energy")
    # loading into a shorter window
    if s.N > L:
        t = other(L)
        got = f.load(lambda x: t.load_state(x, autogrow=True))
        mon.event("autogrow")
        mon.true("window:autogrow", t.N == s.N and len(t.D) == s.N + 2, N=t.N, want=s.N)
        if t.N == s.N:
            mon.le("window:autogrow", p22.dist(before, p22.rdms(sand.View.of(t), a, b)), 1e-7)
            p22.env_rules(t, p23.Sub(mon, "window:autogrow"))
            if tdvp:
                t.take_step(dt)
                t.update()
        # and without permission: nothing changes
        t = other(L)
        b4 = p22.rdms(sand.View.of(t), 1 - L, t.N + L)
        N = t.N
        f.load(lambda x: t.load_state(x))
        mon.true("window:autogrow", t.N == N and all(t.A[n] is not None for n in range(1, N + 1)), what="refused size")
        mon.le("window:autogrow", p22.dist(b4, p22.rdms(sand.View.of(t), 1 - L, t.N + L)), 1e-7, what="refused")


def scramble(rng, s, N):
    """Another object of the same kind with different bulks and contents."""
    ul, ur = copy.deepcopy(s.uni_l), copy.deepcopy(s.uni_r)
    for u in (ul, ur):
        for k in range(u.L):
            u.A[k] = u.A[k] + .3 * gen.cplx(rng, *u.A[k].shape) * np.linalg.norm(u.A[k]) / np.sqrt(u.A[k].size)
        u.update()
    t = type(s)(N, ul, ur)
    if hasattr(s, "ham"):
        t.ham = s.ham if N == s.N or callable(s.ham) else list(s.ham)[:N + 1]
    if N == s.N:
        t.N_centre = s.N_centre      # part of the integration scheme, not of the state
    t.update()
    return t


if __name__ == "__main__":
    sys.exit(core.main(sys.modules["__main__"], sys.argv[1:]))
