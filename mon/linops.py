"""The structured matrices of evoMPS.matmul judged against the dense matrices they stand for."""
import copy
import numpy as np
from . import gen


def rel(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return np.inf
    return float(np.abs(a - b).max() / max(1., np.abs(b).max())) if a.size else 0.


def draw(rng, n, mm, cplx=True, pos=False, kinds=None):
    """(object, dense)"""
    k = rng.randint(3) if kinds is None else kinds[rng.randint(len(kinds))]
    if k == 0:
        X = mm.eyemat(n, dtype=complex if cplx else float)
        return X, np.eye(n)
    if k == 1:
        d = rng.rand(n) + 0.1 if pos else rng.randn(n)
        if cplx:
            d = d + 0j if pos else d + 1j * rng.randn(n)
        return mm.simple_diag_matrix(d.copy()), np.diag(d)
    X = gen.cplx(rng, n, n)
    X = X if cplx else np.ascontiguousarray(X.real)
    return X, X.copy()


def check(mm, rng, mon, tag=""):
    n = int(rng.randint(1, 9))
    cplx = rng.rand() < 0.7
    T = 1e-11

    def R(rule, got, want, **k):
        mon.le(tag + rule, rel(got, want), T, n=n, cplx=cplx, **k)
    for _ in range(4):
        x, X = draw(rng, n, mm, cplx, kinds=[0, 1])
        y, Y = draw(rng, n, mm, cplx)
        rect = gen.cplx(rng, n, int(rng.randint(1, 6)))
        if not cplx:
            rect = rect.real.copy()
        tx, ty = type(x).__name__, type(y).__name__
        k = dict(x=tx, y=ty)
        R("dense", x.toarray(), X, **k)
        R("dense", np.asarray(x), X, **k)
        R("dense", x.A, X, **k)
        try:
            R("dense", np.array(x, dtype=complex), X, **k)
        except TypeError as e:
            mon.true(tag + "convert-dtype", False, error=repr(e))
        mon.true(tag + "convert-dtype", True)
        mon.true(tag + "shape", tuple(x.shape) == X.shape, **k)
        R("dot", x.dot(y), X.dot(Y), **k)
        R("dot", x.dot_left(y), Y.dot(X), left=True, **k)
        R("dot", x.dot(rect), X.dot(rect), rect=True, **k)
        R("dot", x.dot_left(rect.T), rect.T.dot(X), rect=True, left=True, **k)
        s = [2, -1.5, 0.3 + (0.7j if cplx else 0), np.float64(1.7), 0][rng.randint(5)]
        R("scale", x * s, X * s, s=str(s), **k)
        R("scale", s * x, X * s, s=str(s), r=True, **k)
        R("elementwise", x * y, X * Y, **k)
        R("elementwise", y * x, X * Y, r=True, **k)
        if not (isinstance(y, np.ndarray)):
            R("sum", x + np.asarray(y), X + Y, **k)
        R("sum", x + Y, X + Y, **k)
        R("sum", Y + x, X + Y, r=True, **k)
        R("sum", x - Y, X - Y, **k)
        R("sum", Y - x, Y - X, r=True, **k)
        R("sum", x - y, X - Y, both=True, **k)
        z = x
        if ty != "ndarray":
            R("sum", x + y, X + Y, both=True, **k)
        R("adjoint", x.conj(), X.conj(), **k)
        R("adjoint", x.T, X.T, **k)
        R("adjoint", x.transpose(), X.T, **k)
        R("adjoint", mm.H(x), X.conj().T, **k)
        R("adjoint", mm.H(y), Y.conj().T, **k)
        o = np.zeros((n, n), dtype=complex)
        r = mm.H(Y, o)
        R("adjoint", o, Y.conj().T, out=True)
        mon.true(tag + "out", r is o)
        R("trace", x.trace(), X.trace(), **k)
        R("trace", x.diagonal(), X.diagonal(), diag=True, **k)
        R("dense", x.ravel(), X.ravel(), ravel=True, **k)
        c = x.copy()
        d = copy.deepcopy(x)
        if tx == "simple_diag_matrix":
            c.diag[0] += 1
            d.diag[0] += 1
            mon.true(tag + "copy", rel(x, X) == 0, **k)
            R("copy", c.diag[1:], x.diag[1:], **k)
        else:
            R("copy", c, X, **k)
            R("copy", d, X, **k)
        if np.abs(X.diagonal()).min() > 1e-2:
            R("inverse", x.inv().dot(X), np.eye(n), **k)
        p, P = draw(rng, n, mm, cplx, pos=True, kinds=[0, 1])
        R("root", p.sqrt().dot(np.asarray(p.sqrt())), P, **k)
        # chains
        m = int(rng.randint(1, 6))
        args, ref = [], np.eye(n)
        for _j in range(m):
            a, A = draw(rng, n, mm, cplx)
            args.append(a)
            ref = ref.dot(A)
        R("chain", mm.mmul(*args), ref, kinds=[type(a).__name__ for a in args])
        args.append(rect)
        R("chain", mm.mmul(*args), ref.dot(rect), rect=True)
        R("chain", mm.mmul(rect.T, *args[:-1]), rect.T.dot(ref), rect=True)
        R("inner", mm.adot(x, y), np.trace(X.conj().T.dot(Y)), **k)
        R("inner", mm.adot(y, x), np.trace(Y.conj().T.dot(X)), r=True, **k)
        R("inner", mm.adot_noconj(x, y), np.trace(X.dot(Y)), noconj=True, **k)
        R("inner", mm.adot_noconj(y, x), np.trace(X.dot(Y)), noconj=True, r=True, **k)
        dt = complex if cplx else float
        for a, b, ab in ((x, Y.astype(dt), X.dot(Y)), (Y.astype(dt), x, Y.dot(X)), (Y.astype(dt), rect.astype(dt), Y.dot(rect))):
            o = np.full(ab.shape, 5., dtype=dt)
            r = mm.dot_inplace(a, b, o)
            R("in-place", o, ab, a=type(a).__name__, b=type(b).__name__)
            R("in-place", r, ab, res=True)
        R("in-place", mm.mmul_diag(X.diagonal(), rect), X.dot(rect), diag=True)
        R("in-place", mm.mmul_diag(X.diagonal(), rect.T, act_right=False), rect.T.dot(X), diag=True, left=True)
        mon.true(tag + "arguments-unchanged", rel(x, X) == 0 and rel(y, Y) == 0)
        mon.event("operand-pair")
        mon.state(X, Y)
    # functions of Hermitian and triangular matrices
    Q = np.linalg.qr(gen.cplx(rng, n, n))[0]
    if not cplx:
        Q = np.linalg.qr(rng.randn(n, n))[0]
    ev = (0.05 + rng.rand(n)) * rng.choice([1., 1., -1.] if rng.rand() < 0.5 else [1.], n)
    h = (Q * ev).dot(Q.conj().T)
    h = (h + h.conj().T) / 2
    h0 = h.copy()
    s, (e, V) = mm.sqrtmh(h, ret_evd=True)
    R("hermitian-sqrt", s.dot(s), h)
    R("hermitian-sqrt", (V * np.asarray(e) ** 2).dot(V.conj().T), h, evd=True)
    R("hermitian-sqrt", mm.sqrtmh(h), s, plain=True)
    w, W = np.linalg.eigh(h)
    s = mm.sqrtmh(h, evd=(w, W))
    R("hermitian-sqrt", s.dot(s), h, given=True)
    R("hermitian-inverse", mm.invmh(h).dot(h), np.eye(n))
    i, (e, V) = mm.invmh(h, ret_evd=True)
    R("hermitian-inverse", (V * np.asarray(e)).dot(V.conj().T), i, evd=True)
    R("hermitian-inverse", mm.invmh(h, evd=(w, W)).dot(h), np.eye(n), given=True)
    mon.true(tag + "arguments-unchanged", np.array_equal(h, h0), what="hermitian")
    for lower in (False, True):
        t = gen.cplx(rng, n, n) * 0.3 + np.diag(rng.choice([-1, 1], n) * (1 + rng.rand(n)))
        t = t if cplx else t.real
        t = np.tril(t) if lower else np.triu(t)
        t = [np.ascontiguousarray(t), np.asfortranarray(t)][rng.randint(2)]
        t0 = t.copy()
        R("triangular-inverse", mm.invtr(t, lower=lower).dot(t0), np.eye(n), lower=lower)
        mon.true(tag + "arguments-unchanged", np.array_equal(t, t0), what="triangular")
        R("triangular-inverse", mm.invtr(t, lower=lower, overwrite=True).dot(t0), np.eye(n), lower=lower, over=True)
        k = int(rng.randint(n))
        z = t0.copy()
        z[k, k] = 0
        try:
            mm.invtr(z, lower=lower)
            mon.true(tag + "singular-rejected", False, what="inverse of a singular triangular matrix returned")
        except np.linalg.LinAlgError:
            mon.true(tag + "singular-rejected", True)
        except AttributeError as e:
            mon.true(tag + "singular-rejected", False, what=repr(e))
