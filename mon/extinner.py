"""Runs inside a tree with compiled extensions (see mon/ext.py): python -m mon.extinner OUT CASE."""
import importlib
import json
import sys
import numpy as np
from . import core, gen, contract, linops


def run(case, mon):
    globals()["do_" + case["what"]](case, np.random.RandomState(case["seed"]), mon)


def compiled(mon, names):
    out = {}
    for n in names:
        m = importlib.import_module("evoMPS." + n)
        if not mon.true("loaded", m.__file__.endswith(".so"), module=n, file=m.__file__):
            raise core.Inconclusive("not compiled: " + n)
        out[n] = m
    return out


_real = core._from_repo


def _from_repo(e):
    """Frames of compiled functions carry the source path they were translated from."""
    tb, fn = e.__traceback__, ""
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        tb = tb.tb_next
    return _real(e) or fn.endswith((".pyx", ".pxd")) or fn.startswith("evoMPS/")


core._from_repo = _from_repo


def do_maps(case, rng, mon):
    """Values of every compiled contraction."""
    m = compiled(mon, case["modules"])
    import evoMPS.matmul as mm
    import evoMPS.tdvp_common as tm
    mon.true("loaded", tm.eps_l_noop.__module__ == "evoMPS.eps_maps_c" or tm.eps_l_noop is m["eps_maps_c"].eps_l_noop,
             what="tdvp_common does not use the compiled maps")
    for _ in range(case["n"]):
        contract.check(m["eps_maps_c"], rng, mon, names=["noop"], mm=mm, tag="eps_maps_c:", guard=True)
        contract.check(tm, rng, mon, names=contract.COMMON, mm=mm, tag="package:", guard=True)
        if "core_common" in m:
            contract.check(m["core_common"], rng, mon, names=contract.CORE, mm=mm, tag="core_common:", guard=True)
        if "matmul" in m:
            linops.check(mm, rng, mon, tag="matmul:")
        allclose(m["allclose"].allclose_mat, rng, mon)
        calc_C(m["tdvp_calc_C"].calc_C, rng, mon)


def allclose(f, rng, mon):
    a, b = int(rng.randint(1, 8)), int(rng.randint(1, 8))
    rtol, atol = [float(x) for x in 10. ** rng.uniform(-12, 0, 2)]
    if rng.rand() < 0.2:
        rtol = 0.
    if rng.rand() < 0.2:
        atol = 0.
    B = gen.cplx(rng, a, b) * 10. ** rng.uniform(-3, 3)
    A = B.copy()
    want = True
    if rng.rand() < 0.7:
        i, j = rng.randint(a), rng.randint(b)
        lim = atol + rtol * abs(B[i, j])
        k = [0.5, 2.][rng.randint(2)]
        A[i, j] = B[i, j] + k * lim * np.exp(2j * np.pi * rng.rand())
        d = abs(A[i, j] - B[i, j])
        if not (d < 0.9 * lim or d > 1.1 * lim):
            return
        want = bool(d < lim)
    got = f(contract.guarded(A), contract.guarded(B), rtol, atol)
    mon.true("allclose:value", bool(got) == want, got=bool(got), want=want, rtol=rtol, atol=atol)
    for bad in (A[:, :-1], A[:-1], np.vstack([A, A])):
        rejected(mon, lambda: f(np.ascontiguousarray(bad), B, rtol, atol), "allclose shapes")


def rejected(mon, f, what):
    try:
        f()
    except (AssertionError, ValueError, TypeError, IndexError):
        mon.true("rejected", True)
    else:
        mon.true("rejected", False, what=what)


def calc_C(f, rng, mon):
    import exthelp
    q1, q2, D1, D2 = [int(x) for x in rng.randint(1, 6, 4)]
    op = gen.cplx(rng, q1, q2, q1, q2)
    op[rng.rand(*op.shape) < 0.3] = 0
    AA = contract.guarded(gen.cplx(rng, q1, q2, D1, D2))
    keep = AA.copy()
    cap = exthelp.set_table(np.ascontiguousarray(op).tobytes(), q1, q2)
    ref = np.einsum("stuv,uvab->stab", op, AA)
    out = None
    if rng.rand() < 0.5:
        out, edge = contract.canary(ref.shape, complex)
    got = f(AA, cap, out)
    mon.le("calc_C:value", contract.rel(got, ref), 1e-12, q=[q1, q2], D=[D1, D2])
    n, bad = exthelp.counts()
    mon.true("calc_C:indices", bad == 0 and n >= q1 * q1 * q2 * q2, calls=n, outside=bad)
    mon.true("arguments-unchanged", np.array_equal(keep, AA), what="calc_C")
    if out is not None:
        mon.true("out-of-bounds-write", edge(), what="calc_C")
        mon.le("calc_C:value", contract.rel(out, ref), 1e-12, out=True)
    rejected(mon, lambda: f(AA, cap, np.zeros((q1, q2, D1, D2 + 1), dtype=complex)), "calc_C out")
    rejected(mon, lambda: f(AA, cap, np.zeros((q1 + 1, q2, D1, D2), dtype=complex)), "calc_C out q")
    rejected(mon, lambda: f(AA, 3, None), "calc_C capsule")
    rejected(mon, lambda: f(AA, exthelp.wrong(), None), "calc_C capsule name")


def do_reject(case, rng, mon):
    """Mismatched arguments of the compiled maps are refused rather than read or written out of bounds."""
    m = compiled(mon, case["modules"])["eps_maps_c"]
    import evoMPS.matmul as mm
    for _ in range(case["n"]):
        q, a, b, c, d = [int(x) for x in rng.randint(1, 7, 5)]
        A, B = gen.cplx(rng, q, a, b), gen.cplx(rng, q, c, d)
        k = int(rng.randint(1, 4))
        for f, xs in ((m.eps_l_noop, (a, c)), (m.eps_r_noop, (b, d))):
            for x in (gen.cplx(rng, xs[0] + k, xs[1]), gen.cplx(rng, xs[0], xs[1] + k)):
                rejected(mon, lambda: f(x, A, B), "environment shape")
            for n in (xs[0] + k, xs[1] + k):
                for x in (mm.eyemat(n, dtype=complex), mm.simple_diag_matrix(gen.cplx(rng, n))):
                    if n != xs[0] or n != xs[1]:
                        rejected(mon, lambda: f(x, A, B), "structured environment size")
            x = gen.cplx(rng, *xs)
            rejected(mon, lambda: f(x, A, np.concatenate([B, B[:k]])), "physical dimension")
            rejected(mon, lambda: f(x, A[0], B), "rank")
            rejected(mon, lambda: f(x, A.astype(np.complex64), B), "dtype")
        mon.event("bad-call", 16)


def do_races(case, rng, mon):
    """The same call repeated under many threads gives the same answer every time."""
    m = compiled(mon, case["modules"])["eps_maps_c"]
    import evoMPS.matmul as mm
    for _ in range(case["n"]):
        q = int(rng.randint(2, 24))
        D1, D2 = [int(x) for x in rng.randint(1, 12, 2)]
        A, B = gen.cplx(rng, q, D1, D2), gen.cplx(rng, q, D1, D2)
        for f, n in ((m.eps_l_noop, D1), (m.eps_r_noop, D2)):
            xs = [gen.cplx(rng, n, n), mm.eyemat(n, dtype=complex), mm.simple_diag_matrix(gen.cplx(rng, n))]
            for x in xs:
                X = np.asarray(x)
                ref = np.einsum("sab,ac,scd->bd" if n == D1 and f is m.eps_l_noop else "sba,ac,sdc->bd",
                                A.conj() if f is m.eps_l_noop else A, X, B if f is m.eps_l_noop else B.conj(), optimize=True)
                first = f(x, A, B)
                mon.le("races:value", contract.rel(first, ref), 1e-11, q=q, D=[D1, D2], x=type(x).__name__)
                worst = 0.
                for _j in range(case["repeat"]):
                    worst = max(worst, float(abs(f(x, A, B) - first).max()))
                mon.le("races:repeatable", worst, 1e-11 * max(1, abs(ref).max()), q=q, x=type(x).__name__)
                mon.event("repeated-call", case["repeat"])


def rss():
    for line in open("/proc/self/status"):
        if line.startswith("VmRSS"):
            return int(line.split()[1]) / 1024.


def do_leak(case, rng, mon):
    """Memory use does not grow with the number of calls."""
    import gc
    m = compiled(mon, case["modules"])
    ec, cc = m["eps_maps_c"], m["tdvp_calc_C"]
    import evoMPS.matmul as mm
    import exthelp
    D, q = 64, 4
    A = gen.cplx(rng, q, D, D)
    AA = gen.cplx(rng, 2, 2, D, D)
    cap = exthelp.set_table(gen.cplx(rng, 2, 2, 2, 2).tobytes(), 2, 2)
    xs = [gen.cplx(rng, D, D), mm.eyemat(D, dtype=complex), mm.simple_diag_matrix(gen.cplx(rng, D))]
    o = np.zeros((D, D), dtype=complex)
    AF = np.asfortranarray(A)

    calls = [("l " + type(x).__name__, lambda x=x: ec.eps_l_noop_inplace(x, A, A, o)) for x in xs] + \
            [("r " + type(x).__name__, lambda x=x: ec.eps_r_noop_inplace(x, A, A, o)) for x in xs] + \
            [("l new", lambda: ec.eps_l_noop(xs[0], AF, A)), ("r new", lambda: ec.eps_r_noop(xs[0], A, AF)),
             ("calc_C", lambda: cc.calc_C(AA, cap, None)), ("allclose", lambda: m["allclose"].allclose_mat(o, o, 1e-3, 1e-3))]

    def burst(f, n):
        for i in range(n):
            f()
            if i % 50 == 0:
                gc.collect()
        gc.collect()
    n = case["n"]
    for name, f in calls:
        burst(f, 100)
        g = []
        for _ in range(3):
            r0 = rss()
            burst(f, n)
            g.append(rss() - r0)
        # one leaked matrix per call would be 64 KiB each
        mon.le("leak", max(0., min(g)), n * 0.064 / 4, call=name, growth_mb=g)
        mon.event("leak-call", 3 * n)


def do_module(case, rng, mon):
    """Cases of another property on the package with compiled extensions."""
    compiled(mon, case["modules"])
    mod = importlib.import_module("props." + case["prop"])
    cs = mod.cases("quick", case["seed"] % 1000)
    if case.get("kinds"):
        cs = [c for c in cs if c["kind"] in case["kinds"]]
    idx = rng.permutation(len(cs))[:case["n"]]
    known = core.load_known(mod.ID)
    for i in idx:
        c = dict(cs[int(i)], id=int(i))
        c.setdefault("seed", case["seed"] % 1000 * 100003 + int(i))
        r = core.run_case(mod, c)
        if r["harness_error"]:
            raise RuntimeError(r["harness_error"])
        for k, (n, w) in r["rules"].items():
            mon.rules.setdefault("package", [0, 0.])[0] += n
        for v in r["violations"]:
            if not core.is_known(known, r, v):
                mon.true("package", False, prop=mod.ID, inner=c, rule_=v["rule"], **{"info": v["info"]})
        mon.states.update(r["states"])
        mon.event("package-case")


def do_self_overflow(case, rng, mon):
    import exthelp
    exthelp.overflow(32)


def do_self_signed(case, rng, mon):
    import exthelp
    exthelp.signed_overflow(1)


def main():
    out, case = sys.argv[1], json.loads(sys.argv[2])
    core.CASE_TIMEOUT = 135
    import warnings
    warnings.simplefilter("ignore")
    import logging
    logging.disable(logging.CRITICAL)
    r = core.run_case(sys.modules["__main__"], case)
    json.dump(r, open(out, "w"), default=core._js)


if __name__ == "__main__":
    main()
