"""Contraction maps judged against their definition, for the Python functions and for the compiled ones.

check(M, rng, mon, dtype, names) draws tensors and calls every function of module M (core_common, tdvp_common or
eps_maps_c) in `names`; the reference is a plain einsum of the documented formula."""
import numpy as np
from . import gen

E = lambda *a: np.einsum(*a, optimize=True)

CORE = ["AA", "noop", "op_1s", "op_MPO", "noop_multi", "op_2s", "C_func"]
COMMON = ["op_2s_pre", "op_3s_pre", "C_mat", "tp", "K", "MPO_local"]


def layout(rng, A):
    """The same values in C order, Fortran order, or as a view of a larger array."""
    t = rng.randint(5)
    if t == 0:
        return np.asfortranarray(A)
    if t == 1:
        B = np.zeros(tuple(2 * s for s in A.shape), dtype=A.dtype)
        v = B[tuple(slice(0, 2 * s, 2) for s in A.shape)]
        v[...] = A
        return v
    if t == 2 and A.ndim >= 2:
        return np.ascontiguousarray(A.swapaxes(-1, -2)).swapaxes(-1, -2)
    return np.ascontiguousarray(A)


def guarded(A):
    """The same values between two NaN zones: reads past either end show up in the result."""
    n, g = A.size, 64
    buf = np.full(n + 2 * g, np.nan, dtype=A.dtype)
    v = buf[g:g + n].reshape(A.shape)
    v[...] = A
    return v


class Draw(object):
    def __init__(self, rng, dtype, c_order=False, guard=False):
        self.guard = guard
        self.rng = rng
        self.dtype = np.dtype(dtype)
        self.c = c_order
        self.kept = []

    def t(self, *shape):
        A = gen.cplx(self.rng, *shape)
        if self.dtype.kind != "c":
            A = A.real
        A = np.ascontiguousarray(A.astype(self.dtype))
        if self.rng.rand() < 0.1:
            A[...] = 0
        if self.rng.rand() < 0.15:
            A *= self.rng.rand(*shape) < 0.5
        if not self.c:
            A = layout(self.rng, A)
        if self.guard and A.flags["C_CONTIGUOUS"]:
            A = guarded(A)
        self.kept.append((A, A.copy()))
        return A

    def x(self, D1, D2, mm):
        """An environment: dense, or structured when square."""
        j = self.rng.randint(3) if D1 == D2 else 0
        if j == 1:
            return mm.eyemat(D1, dtype=self.dtype)
        if j == 2:
            d = self.rng.randn(D1) + (1j * self.rng.randn(D1) if self.dtype.kind == "c" else 0)
            X = mm.simple_diag_matrix(d.astype(self.dtype))
            if self.rng.rand() < 0.3 and not self.c:
                X.diag = np.repeat(X.diag, 2)[::2]
            self.kept.append((X.diag, X.diag.copy()))
            return X
        return self.t(D1, D2)

    def same(self):
        return all(np.array_equal(a, b) for a, b in self.kept)


def dims(rng, n, big=False):
    return [int(x) for x in rng.randint(1, 14 if big else 7, n)]


def rel(a, b):
    a = np.asarray(a)
    b = np.asarray(b)
    if a.shape != b.shape:
        return np.inf
    if a.size == 0:
        return 0.
    return float(np.abs(a - b).max() / max(1., np.abs(b).max()))


def square(rng, a, b):
    return (a, a) if rng.rand() < 0.7 else (a, b)


def check(M, rng, mon, dtype=complex, names=CORE, mm=None, c_order=False, tag="", tol=None, guard=False):
    if mm is None:
        import evoMPS.matmul as mm
    g = Draw(rng, dtype, c_order, guard)
    T = tol or 1e-11
    for name in names:
        big = rng.rand() < 0.2
        D0, D1, D2, D3, d0, d1, d2, d3 = dims(rng, 8, big)
        D0, d0 = square(rng, D0, d0)
        D1, d1 = square(rng, D1, d1)
        D2, d2 = square(rng, D2, d2)
        D3, d3 = square(rng, D3, d3)
        q, q1, q2 = [int(x) for x in rng.randint(1, 5, 3)]
        if rng.rand() < 0.1:
            q = int(rng.randint(5, 20))
        R = lambda what, got, ref, **k: mon.le("%s%s" % (tag, name), rel(got, ref), T, what=what, q=[q, q1, q2],
                                               D=[D0, D1, D2, D3], d=[d0, d1, d2, d3], dtype=str(g.dtype), **k)
        globals()["c_" + name](M, g, rng, R, mm, mon, (D0, D1, D2, D3), (d0, d1, d2, d3), (q, q1, q2))
        mon.event("contraction")
    mon.true(tag + "arguments-unchanged", g.same(), names=names)


def c_AA(M, g, rng, R, mm, mon, D, d, q):
    A, B, C = g.t(q[0], D[0], D[1]), g.t(q[1], D[1], D[2]), g.t(q[2], D[2], D[3])
    AA = E("sab,tbc->stac", A, B)
    AAA = E("sab,tbc,ucd->stuad", A, B, C)
    R("AA", M.calc_AA(A, B), AA)
    R("AAA", M.calc_AAA(A, B, C), AAA)
    R("AAA_AA", M.calc_AAA_AA(AA, C), AAA)
    R("AAA_AAr", M.calc_AAA_AAr(A, E("sab,tbc->stac", B, C)), AAA)


def canary(shape, dtype):
    n, g = int(np.prod(shape)), 64
    buf = np.full(n + 2 * g, 7., dtype=dtype)
    return buf[g:g + n].reshape(shape), lambda: bool((buf[:g] == 7).all() and (buf[g + n:] == 7).all())


def c_noop(M, g, rng, R, mm, mon, D, d, q):
    A, B = g.t(q[0], D[0], D[1]), g.t(q[0], d[0], d[1])
    x, y = g.x(D[0], d[0], mm), g.x(D[1], d[1], mm)
    X, Y = np.asarray(x), np.asarray(y)
    L = E("sab,ac,scd->bd", A.conj(), X, B)
    S = E("sab,bd,scd->ac", A, Y, B.conj())
    k = type(x).__name__
    R("l", M.eps_l_noop(x, A, B), L, x=k)
    R("r", M.eps_r_noop(y, A, B), S, x=type(y).__name__)
    o, edge = canary((D[1], d[1]), g.dtype)
    r = M.eps_l_noop_inplace(x, A, B, o)
    mon.true("out-of-bounds-write", edge(), what="eps_l_noop_inplace")
    R("l inplace", o, L, x=k)
    R("l inplace result", r, L)
    o, edge = canary((D[0], d[0]), g.dtype)
    r = M.eps_r_noop_inplace(y, A, B, o)
    mon.true("out-of-bounds-write", edge(), what="eps_r_noop_inplace")
    R("r inplace", o, S)
    R("r inplace result", r, S)
    # <x|E|y> from either side
    if D[0] == d[0] and D[1] == d[1] and X.shape and Y.shape:
        a = mm.adot(M.eps_l_noop(x, A, B), Y)
        b = mm.adot(X, M.eps_r_noop(y, A, B))
        mon.le("adjoint", abs(a - b), 1e-10 * max(1, abs(b), np.abs(S).sum() * np.abs(X).max()))


def c_op_1s(M, g, rng, R, mm, mon, D, d, q):
    A, B = g.t(q[0], D[0], D[1]), g.t(q[0], d[0], d[1])
    x, y = g.x(D[0], d[0], mm), g.x(D[1], d[1], mm)
    op = g.t(q[0], q[0])
    R("l", M.eps_l_op_1s(x, A, B, op), E("ut,tab,ac,ucd->bd", op.conj(), A.conj(), np.asarray(x), B))
    R("r", M.eps_r_op_1s(y, A, B, op), E("ut,tab,bd,ucd->ac", op, A, np.asarray(y), B.conj()))


def c_op_MPO(M, g, rng, R, mm, mon, D, d, q):
    A, B = g.t(q[0], D[0], D[1]), g.t(q[1], d[0], d[1])
    m0, m1 = [int(z) for z in rng.randint(1, 5, 2)]
    W = g.t(m0, m1, q[1], q[0])
    x, y = g.t(m0, D[0], d[0]), g.t(m1, D[1], d[1])
    R("l", M.eps_l_op_MPO(x, A, B, W), E("MNut,tab,Mac,ucd->Nbd", W.conj(), A.conj(), x, B))
    R("r", M.eps_r_op_MPO(y, A, B, W), E("MNut,tab,Nbd,ucd->Mac", W, A, y, B.conj()))


def c_noop_multi(M, g, rng, R, mm, mon, D, d, q):
    A = [g.t(q[0], D[0], D[1]), g.t(q[1], D[1], D[2]), g.t(q[2], D[2], D[3])]
    B = [g.t(q[0], d[0], d[1]), g.t(q[1], d[1], d[2]), g.t(q[2], d[2], d[3])]
    y = g.x(D[3], d[3], mm)
    F = E("sab,tbc,ucd->stuad", *A)
    G = E("sab,tbc,ucd->stuad", *B)
    ref = E("stuad,de,stufe->af", F, np.asarray(y), G.conj())
    ga = lambda Z: [Z, [E("sab,tbc->stac", Z[0], Z[1]), Z[2]], [Z[0], E("sab,tbc->stac", Z[1], Z[2])],
                    [E("sab,tbc,ucd->stuad", *Z)]][rng.randint(4)]
    R("multi", M.eps_r_noop_multi(y, list(ga(A)), list(ga(B))), ref)


def c_op_2s(M, g, rng, R, mm, mon, D, d, q):
    A, A2 = g.t(q[0], D[0], D[1]), g.t(q[1], D[1], D[2])
    B, B2 = g.t(q[0], d[0], d[1]), g.t(q[1], d[1], d[2])
    op = g.t(q[0], q[1], q[0], q[1])
    y = g.x(D[2], d[2], mm)
    AA, BB = E("sab,tbc->stac", A, A2), E("sab,tbc->stac", B, B2)
    C = E("uvst,stac->uvac", op, AA)
    ref = E("uvac,cd,uved->ae", C, np.asarray(y), BB.conj())
    R("A", M.eps_r_op_2s_A(y, A, A2, B, B2, op), ref)
    R("AA12", M.eps_r_op_2s_AA12(y, AA, B, B2, op), ref)
    R("func", M.eps_r_op_2s_AA_func_op(y, AA, BB, lambda *i: op[i]), ref)
    R("C12", M.eps_r_op_2s_C12(y, C, B, B2), ref)
    CB = E("uvst,stac->uvac", op.conj(), BB)
    R("C34", M.eps_r_op_2s_C34(y, A, A2, CB), E("uvac,cd,uved->ae", AA, np.asarray(y), CB.conj()))


def c_C_func(M, g, rng, R, mm, mon, D, d, q):
    A, A2 = g.t(q[0], D[0], D[1]), g.t(q[1], D[1], D[2])
    op = g.t(q[0], q[1], q[0], q[1])
    AA = E("sab,tbc->stac", A, A2)
    f = lambda s, t, u, v: op[s, t, u, v]
    R("C_func_op", M.calc_C_func_op(f, A, A2), E("stuv,uvac->stac", op, AA))
    R("C_func_op_AA", M.calc_C_func_op_AA(f, AA), E("stuv,uvac->stac", op, AA))


# --- tdvp_common -----------------------------------------------------------
def c_op_2s_pre(M, g, rng, R, mm, mon, D, d, q):
    A, A2 = g.t(q[0], D[0], D[1]), g.t(q[1], D[1], D[2])
    F, G = g.t(q[0], q[1], D[0], D[2]), g.t(q[0], q[1], d[0], d[2])
    x, y = g.x(D[0], d[0], mm), g.x(D[2], d[2], mm)
    r = E("stac,cd,sted->ae", F, np.asarray(y), G.conj())
    R("r AA12_C34", M.eps_r_op_2s_AA12_C34(y, F, G), r)
    R("r C12_AA34", M.eps_r_op_2s_C12_AA34(y, F, G), r)
    R("l AA12_C34", M.eps_l_op_2s_AA12_C34(x, F, G), E("stac,ae,sted->cd", F.conj(), np.asarray(x), G))
    AA = E("sab,tbc->stac", A, A2)
    R("l A1_A2_C34", M.eps_l_op_2s_A1_A2_C34(x, A, A2, G), E("stac,ae,sted->cd", AA.conj(), np.asarray(x), G))


def c_op_3s_pre(M, g, rng, R, mm, mon, D, d, q):
    F, G = g.t(q[0], q[1], q[2], D[0], D[3]), g.t(q[0], q[1], q[2], d[0], d[3])
    x, y = g.x(D[0], d[0], mm), g.x(D[3], d[3], mm)
    R("r", M.eps_r_op_3s_C123_AAA456(y, F, G), E("stuac,cd,stued->ae", F, np.asarray(y), G.conj()))
    R("l", M.eps_l_op_3s_AAA123_C456(x, F, G), E("stuac,ae,stued->cd", F.conj(), np.asarray(x), G))


def c_C_mat(M, g, rng, R, mm, mon, D, d, q):
    AA = g.t(q[0], q[1], D[0], D[2])
    op = g.t(q[0], q[1], q[0], q[1])
    ref = E("stuv,uvac->stac", op, AA)
    R("AA", M.calc_C_mat_op_AA(op, AA), ref)
    R("AA tensordot", M.calc_C_mat_op_AA_tensordot(op, AA), ref)
    ref = E("uvst,uvac->stac", op.conj(), AA)
    R("conj", M.calc_C_conj_mat_op_AA(op, AA), ref)
    R("conj tensordot", M.calc_C_conj_mat_op_AA_tensordot(op, AA), ref)
    AAA = g.t(q[0], q[1], q[2], D[0], D[3])
    op = g.t(*(q + q))
    ref = E("stuvwx,vwxac->stuac", op, AAA)
    R("AAA", M.calc_C_3s_mat_op_AAA(op, AAA), ref)
    R("AAA tensordot", M.calc_C_3s_mat_op_AAA_tensordot(op, AAA), ref)


def c_tp(M, g, rng, R, mm, mon, D, d, q):
    A, A2 = g.t(q[0], D[0], D[1]), g.t(q[1], D[1], D[2])
    tp = [[g.t(q[0], q[0]), g.t(q[1], q[1])] for _ in range(rng.randint(1, 4))]
    C = sum(E("su,tv,uab,vbc->stac", a, b, A, A2) for a, b in tp)
    R("C", M.calc_C_mat_op_tp(tp, A, A2), C)
    Ct = M.calc_C_tp(tp, A, A2)
    R("C_tp", sum(E("sab,tbc->stac", a, b) for a, b in Ct), C)
    AA = E("sab,tbc->stac", A, A2)
    x, y = g.x(D[0], D[0], mm), g.x(D[2], D[2], mm)
    R("l", M.eps_l_op_2s_C34_tp(x, A, A2, Ct), E("stac,ae,sted->cd", AA.conj(), np.asarray(x), C))
    R("r", M.eps_r_op_2s_C12_tp(y, Ct, A, A2), E("stac,cd,sted->ae", C, np.asarray(y), AA.conj()))


def c_K(M, g, rng, R, mm, mon, D, d, q):
    A, B, C3 = g.t(q[0], D[0], D[1]), g.t(q[1], D[1], D[2]), g.t(q[2], D[2], D[3])
    AA = E("sab,tbc->stac", A, B)
    AAA = E("sab,tbc,ucd->stuad", A, B, C3)
    C = g.t(*AA.shape)
    CC = g.t(*AAA.shape)
    some = lambda z: None if rng.rand() < 0.2 else z

    def two(what, res, K, h):
        R(what, res[0], K)
        if h is None:
            mon.true("expect-missing", np.isnan(res[1]), what=what)
        else:
            R(what + " h", res[1], h)
    l, Kp = some(g.x(D[0], D[0], mm)), g.t(D[1], D[1])
    EK = E("sab,bd,scd->ac", A, Kp, A.conj())
    y = g.x(D[2], D[2], mm)
    Hr = E("stac,cd,sted->ae", C, np.asarray(y), AA.conj())
    two("K", M.calc_K(Kp, C, l, y, A, AA), EK + Hr, None if l is None else np.vdot(np.asarray(l), Hr))
    tp = [[g.t(q[0], q[0]), g.t(q[1], q[1])] for _ in range(rng.randint(1, 3))]
    Ct = [[E("su,uab->sab", a, A), E("tv,vbc->tbc", b, B)] for a, b in tp]
    Cm = sum(E("sab,tbc->stac", a, b) for a, b in Ct)
    Hr = E("stac,cd,sted->ae", Cm, np.asarray(y), AA.conj())
    two("K tp", M.calc_K_tp(Kp, l, y, A, B, Ct), EK + Hr, None if l is None else np.vdot(np.asarray(l), Hr))
    y3 = g.x(D[3], D[3], mm)
    Hr = E("stuac,cd,stued->ae", CC, np.asarray(y3), AAA.conj())
    two("K 3s", M.calc_K_3s(Kp, CC, l, y3, A, AAA), EK + Hr, None if l is None else np.vdot(np.asarray(l), Hr))
    # from the left: the site is the last one of the pair (triple)
    x, Km, r = g.x(D[0], D[0], mm), g.t(D[1], D[1]), some(g.x(D[2], D[2], mm))
    EK = E("sab,ac,scd->bd", B.conj(), Km, B)
    Hl = E("stac,ae,sted->cd", AA.conj(), np.asarray(x), C)
    tr = lambda a, b: np.trace(np.asarray(a).dot(np.asarray(b)))
    two("K_l", M.calc_K_l(Km, C, x, r, B, AA), EK + Hl, None if r is None else tr(Hl, r))
    Hl = E("stac,ae,sted->cd", AA.conj(), np.asarray(x), Cm)
    two("K_l tp", M.calc_K_l_tp(Km, x, r, A, B, Ct), EK + Hl, None if r is None else tr(Hl, r))
    Km, r = g.t(D[2], D[2]), some(g.x(D[3], D[3], mm))
    EK = E("sab,ac,scd->bd", C3.conj(), Km, C3)
    Hl = E("stuac,ae,stued->cd", AAA.conj(), np.asarray(x), CC)
    two("K_3s_l", M.calc_K_3s_l(Km, CC, x, r, C3, AAA), EK + Hl, None if r is None else tr(Hl, r))


def c_MPO_local(M, g, rng, R, mm, mon, D, d, q):
    m0, m1 = [int(z) for z in rng.randint(1, 4, 2)]
    A, W = g.t(q[0], D[0], D[1]), g.t(m0, m1, q[0], q[0])
    ref = E("MNst,tab->sMaNb", W, A).reshape(q[0], m0 * D[0], m1 * D[1])
    got = M.apply_MPO_local(W, A)
    # the order of the combined bond index is the code's own business if it is the same left and right
    alt = E("MNst,tab->saMbN", W, A).reshape(q[0], m0 * D[0], m1 * D[1])
    R("apply", got, ref if rel(got, ref) < rel(got, alt) else alt)
