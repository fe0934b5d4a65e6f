"""P19: the compiled extensions compute the same values, safely, as the code they replace."""
import os
import shutil
import sys
from mon import core, ext

ID = "P19"
RULE = ("A case is one process running the package with extension modules built from the tree under test (sanitized or "
        "plain, one or several threads) over many random calls; non-trivial if the modules were loaded and called.")
REQUIRED_RULES = ["sanitizer-live", "sanitizer", "loaded", "eps_maps_c:noop", "core_common:op_2s", "matmul:dot",
                  "package:K", "package", "allclose:value", "calc_C:value", "calc_C:indices", "rejected", "races:value",
                  "races:repeatable", "leak", "out-of-bounds-write", "eps_maps_c:arguments-unchanged"]
ASSUMPTIONS = ["compiled modules are called with complex128 arrays, outputs of the documented shape; BLAS itself is not "
               "instrumented, its operands are watched through guard zones of NaN and canaries instead"]
ROOT = None
TREES = [("shipped", "asan"), ("fresh", "asan"), ("fresh", "plain"), ("shipped", "plain")]


def prepare():
    global ROOT
    ROOT = ext.build(TREES)


def cleanup():
    if ROOT:
        shutil.rmtree(ROOT, ignore_errors=True)


def cases(tier, seed):
    import numpy as np
    rng = np.random.RandomState(seed * 41 + 19)
    s = lambda: int(rng.randint(1 << 30))
    k = 1 if tier == "quick" else 8
    cs = []
    for v in ("shipped", "fresh"):
        mods = ext.SHIPPED if v == "shipped" else ext.FRESH
        add = lambda kind, fl, threads, cost, **kw: cs.append(dict(
            kind=kind, what=kind, tree="%s-%s" % (v, fl), threads=threads, seed=s(), cost=cost, modules=mods, **kw))
        add("self_overflow", "asan", 1, 1)
        add("self_signed", "asan", 1, 1)
        for _ in range(k):
            for t in (1, 2, 8):
                add("maps", "asan", t, 20, n=40)
            add("maps", "plain", 4, 10, n=60)
            add("reject", "asan", 2, 5, n=30)
            add("races", "plain", 8, 10, n=30, repeat=20)
            add("races", "asan", 3, 10, n=10, repeat=10)
            for prop, kinds, n in (("p03", None, 25), ("p05", None, 25), ("p06", None, 20), ("p12", None, 20),
                                   ("p13", None, 20), ("p15", None, 15)):
                add("module", ["asan", "plain"][rng.randint(2)], [1, 3][rng.randint(2)], 20, prop=prop, kinds=kinds, n=n)
        add("leak", "plain", 2, 20, n=400 * (1 if tier == "quick" else 4))
    return cs


def run(case, mon):
    global ROOT
    own = ROOT is None
    if own:
        prepare()          # a replay
    try:
        _run(case, mon)
    finally:
        if own:
            cleanup()
            ROOT = None


def _run(case, mon):
    res, report, trouble = ext.call(ROOT, case["tree"], case, case["threads"])
    if case["what"].startswith("self_"):
        mon.true("sanitizer-live", bool(report) and ("runtime error" in report or "AddressSanitizer" in report),
                 got=str(report)[:200])
        if not report:
            raise RuntimeError("planted error not reported: %r" % (trouble,))
        mon.nontrivial = True
        return
    mon.true("sanitizer", report is None, report=str(report)[:1500])
    if report is not None and res is None:
        return
    if trouble:
        raise core.Inconclusive("timeout") if trouble == "timeout" else RuntimeError(trouble)
    if res["harness_error"]:
        raise RuntimeError(res["harness_error"])
    for k, (n, w) in res["rules"].items():
        x = mon.rules.setdefault(k, [0, 0.])
        x[0] += n
        x[1] = max(x[1], w)
    for k, n in res["events"].items():
        mon.event(k, n)
    mon.states.update(res["states"])
    mon.violations += [dict(rule=v["rule"], info=v["info"]) for v in res["violations"]]
    mon.readings += res["readings"]
    for w in res["inconclusive"]:
        mon.unsure(w)
    mon.event("process")
    mon.nontrivial = True


if __name__ == "__main__":
    sys.exit(core.main(sys.modules["__main__"], sys.argv[1:]))
