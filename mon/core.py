"""Monitor framework: cases, online monitors, verdict, evidence.

A *property module* (props/pXX.py) provides

    ID, RULE              property id, one-sentence description of the case rule
    cases(tier, seed)     -> list of JSON-able dicts (one per workload)
    run(case, mon)        drives the real code; every oracle reading goes
                          through `mon`

`mon.le(rule, err, tol)` and `mon.true(rule, cond)` are the deciding steps.  A
reading that fails is a violation of `rule`; a rule that never fired on a whole
run is reported as an error of the check (the workload lost its reach), not as
"held".
"""
import contextlib
import io
import json
import math
import os
import signal
import sys
import time
import traceback
import hashlib

REPO = os.path.realpath(os.environ.get("EVOMPS_REPO", "/repo"))
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(VERIF, "evidence")
CASE_TIMEOUT = 150


class CaseTimeout(Exception):
    pass


class Inconclusive(Exception):
    """The workload could not be judged (harness precondition not met)."""


def _js(x):
    try:
        import numpy as np
        if isinstance(x, np.ndarray):
            return [_js(y) for y in x.tolist()] if x.size <= 32 else "array%s" % (x.shape,)
        if isinstance(x, np.generic):
            return _js(x.item())
    except ImportError:
        pass
    if isinstance(x, complex):
        return [x.real, x.imag]
    if isinstance(x, float):
        return x if math.isfinite(x) else repr(x)
    if isinstance(x, (list, tuple)):
        return [_js(y) for y in x]
    if isinstance(x, dict):
        return {str(k): _js(v) for k, v in x.items()}
    if isinstance(x, (int, str, bool)) or x is None:
        return x
    return repr(x)[:200]


class Capture(object):
    """Collect what a logger of evoMPS reports while the block runs."""
    def __init__(self, name):
        import logging
        self.log = logging.getLogger(name)
        self.records = []
        self.h = logging.Handler(logging.WARNING)
        self.h.emit = lambda r: self.records.append(r.getMessage())

    def __enter__(self):
        import logging
        self.log.addHandler(self.h)
        self.was = logging.root.manager.disable
        logging.disable(logging.NOTSET)
        return self

    def __exit__(self, *a):
        import logging
        logging.disable(self.was)
        self.log.removeHandler(self.h)


class Monitor(object):
    def __init__(self, case):
        self.case = case
        self.rules = {}        # rule -> [count, worst err/tol]
        self.events = {}       # event name -> count
        self.states = set()    # digests of distinct observed states
        self.violations = []
        self.inconclusive = []
        self.nontrivial = False
        self.readings = []     # a few raw readings for the evidence samples
        self.info = {}

    # -- observations ------------------------------------------------------
    def event(self, name, k=1):
        self.events[name] = self.events.get(name, 0) + k

    def state(self, *arrs):
        """Record a distinct observed state (rounded, so that rounding noise
        does not count as a new state)."""
        import numpy as np
        h = hashlib.md5()
        for a in arrs:
            h.update(np.round(np.asarray(a, dtype=complex), 6).tobytes())
        self.states.add(h.hexdigest()[:12])

    def _hit(self, rule, ratio):
        r = self.rules.setdefault(rule, [0, 0.0])
        r[0] += 1
        if ratio > r[1]:
            r[1] = ratio

    def le(self, rule, err, tol, **info):
        """Deciding step: the measured error must not exceed tol."""
        try:
            err = float(abs(err))
        except TypeError:
            err = float("nan")
        ok = err <= tol
        ratio = err / tol if tol > 0 and math.isfinite(err) else (0.0 if ok else 1e99)
        self._hit(rule, ratio)
        if len(self.readings) < 6:
            self.readings.append([rule, _js(err), tol])
        if not ok:
            self._viol(rule, dict(info, err=err, tol=tol))
        return ok

    def true(self, rule, cond, **info):
        self._hit(rule, 0.0 if cond else 1e99)
        if not cond:
            self._viol(rule, info)
        return bool(cond)

    def close(self, rule, a, b, tol, scale=None, **info):
        """|a-b| <= tol * max(1, |b|) (or * scale), elementwise max norm."""
        import numpy as np
        try:
            a = np.asarray(a, dtype=complex)
            b = np.asarray(b, dtype=complex)
        except (TypeError, ValueError) as e:
            return self.true(rule, False, what="not a numeric array: %s" % e, **info)
        if a.shape != b.shape:
            return self.true(rule, False, what="shape %s != %s" % (a.shape, b.shape), **info)
        if a.size == 0:
            return True
        d = np.abs(a - b).max()
        s = scale if scale is not None else max(1.0, np.abs(b).max())
        if a.size == 1:
            info = dict(info, got=complex(a.ravel()[0]), want=complex(b.ravel()[0]))
        return self.le(rule, d / s, tol, **info)

    def _viol(self, rule, info):
        if len(self.violations) < 40:
            self.violations.append({"rule": rule, "info": _js(info)})

    def unsure(self, why):
        self.inconclusive.append(why)

    def result(self):
        return {"case": self.case, "rules": self.rules, "events": self.events,
                "states": sorted(self.states)[:2000], "violations": self.violations,
                "inconclusive": self.inconclusive, "nontrivial": bool(self.nontrivial),
                "readings": self.readings, "info": _js(self.info)}


@contextlib.contextmanager
def crash_is(mon, rule, **info):
    """An exception coming out of the code under test is a violation of rule."""
    try:
        yield
        mon._hit(rule, 0.0)
    except (CaseTimeout, Inconclusive):
        raise
    except Exception as e:
        if _from_repo(e):
            mon.true(rule, False, exception=repr(e)[:300],
                     where=traceback.format_exc().strip().splitlines()[-3:], **info)
        else:
            raise


def _from_repo(e):
    tb = e.__traceback__
    root = os.path.join(REPO, "evoMPS")
    while tb is not None:
        fn = os.path.realpath(tb.tb_frame.f_code.co_filename)
        if fn.startswith(root):
            return True
        tb = tb.tb_next
    return False


def _alarm(signum, frame):
    raise CaseTimeout()


def run_case(mod, case, capture=True):
    import numpy as np
    import random
    mon = Monitor(case)
    np.random.seed((int(case["seed"]) * 7919 + 13) % (2 ** 32))
    random.seed(case["seed"])
    out = io.StringIO()
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_TIMEOUT)
    t0 = time.time()
    err = None
    try:
        with contextlib.redirect_stdout(out) if capture else contextlib.nullcontext():
            np.seterr(all="ignore")
            mod.run(case, mon)
    except CaseTimeout:
        mon.true("terminates", False, what="workload still running after %d s" % CASE_TIMEOUT)
    except Inconclusive as e:
        mon.unsure(str(e))
    except BaseException as e:
        if isinstance(e, (KeyboardInterrupt, SystemExit)):
            raise
        if _from_repo(e):
            mon.true("no-exception", False, exception=repr(e)[:300],
                     where=[l.strip() for l in traceback.format_exc().strip().splitlines()[-5:]])
        else:
            err = traceback.format_exc()
    finally:
        signal.alarm(0)
    res = mon.result()
    res["wall"] = time.time() - t0
    res["harness_error"] = err
    s = out.getvalue()
    res["sanity_prints"] = s.count("Sanity")
    return res


def _worker(mod, cases, path):
    with open(path, "w") as f:
        for c in cases:
            f.write(json.dumps({"begin": c}) + "\n")
            f.flush()
            r = run_case(mod, c)
            f.write(json.dumps(r, default=_js) + "\n")
            f.flush()
            if any(v["rule"] == "terminates" for v in r["violations"]):
                break      # verdict is settled; do not burn the time budget


def _run_parallel(mod, cases, nproc):
    import tempfile
    import shutil
    tmp = tempfile.mkdtemp(prefix="mon-%s-" % mod.ID)
    pids = []
    try:
        # heaviest first, dealt round robin
        order = sorted(range(len(cases)), key=lambda i: -cases[i].get("cost", 1))
        parts = [[] for _ in range(nproc)]
        load = [0.0] * nproc
        for i in order:
            j = min(range(nproc), key=lambda k: load[k])
            parts[j].append(cases[i])
            load[j] += cases[i].get("cost", 1)
        for k, part in enumerate(parts):
            if not part:
                continue
            p = os.path.join(tmp, "%d.jsonl" % k)
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    _worker(mod, part, p)
                except BaseException:
                    traceback.print_exc()
                    code = 3
                finally:
                    sys.stdout.flush()
                    sys.stderr.flush()
                    os._exit(code)
            pids.append((pid, p))
        results, dead = [], []
        for pid, p in pids:
            _, st = os.waitpid(pid, 0)
            begun = None
            try:
                for line in open(p):
                    try:
                        o = json.loads(line)
                    except ValueError:
                        continue
                    if "begin" in o:
                        begun = o["begin"]
                    else:
                        results.append(o)
                        begun = None
            except IOError:
                pass
            if st != 0:
                dead.append({"status": st, "case": begun})
        return results, dead
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def load_known(pid):
    """known_findings.txt: lines 'known: property=<id> rule=<rule> [match=<substr>] -- text'."""
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if not line.startswith("known:"):
                continue
            head, _, text = line[6:].partition("--")
            kv = dict(t.split("=", 1) for t in head.split() if "=" in t)
            if kv.get("property") == pid:
                out.append((kv["rule"], kv.get("match"), text.strip()))
    return out


def is_known(known, res, v):
    blob = json.dumps([res["case"], v["info"]], sort_keys=True)
    for rule, match, text in known:
        if v["rule"] == rule and (match is None or match in blob):
            return text
    return None


def main(mod, argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--nproc", type=int, default=8)
    ap.add_argument("--limit", type=int)
    ap.add_argument("--kind")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args(argv)
    import warnings
    warnings.simplefilter("ignore")
    import logging
    logging.disable(logging.CRITICAL)

    import evoMPS
    src = os.path.realpath(os.path.dirname(evoMPS.__file__))
    if src != os.path.join(REPO, "evoMPS"):
        print("ERROR: evoMPS imported from %s, expected %s" % (src, REPO))
        return 3

    if a.replay:
        rep = json.load(open(a.replay))
        r = run_case(mod, rep["case"], capture=False)
        print(json.dumps({k: r[k] for k in ("rules", "violations", "harness_error")}, indent=1))
        return 1 if r["violations"] else 0

    t0 = time.time()
    cases = mod.cases(a.tier, a.seed)
    if a.kind:
        cases = [c for c in cases if c["kind"] in a.kind.split(",")]
    if a.limit:
        cases = cases[:a.limit]
    for i, c in enumerate(cases):
        c.setdefault("id", i)
        c.setdefault("seed", a.seed * 100003 + i)
    if hasattr(mod, "prepare"):
        mod.prepare()
    try:
        results, dead = _run_parallel(mod, cases, a.nproc)
    finally:
        if hasattr(mod, "cleanup"):
            mod.cleanup()
    wall = time.time() - t0
    known = load_known(mod.ID)

    rules, events, kinds, states = {}, {}, {}, set()
    viols, knowns, harness, inconcl = [], [], [], []
    nontriv = set()
    for r in results:
        for k, (c, w) in r["rules"].items():
            x = rules.setdefault(k, [0, 0.0])
            x[0] += c
            x[1] = max(x[1], w)
        for k, c in r["events"].items():
            events[k] = events.get(k, 0) + c
        states.update(r["states"])
        kinds[r["case"]["kind"]] = kinds.get(r["case"]["kind"], 0) + 1
        for v in r["violations"]:
            t = is_known(known, r, v)
            (knowns if t else viols).append((r, v, t))
        if r["harness_error"]:
            harness.append(r)
        inconcl += [(r["case"]["id"], s) for s in r["inconclusive"]]
        if r["nontrivial"]:
            nontriv.add(hashlib.md5(json.dumps({k: v for k, v in r["case"].items() if k != "id"},
                                               sort_keys=True).encode()).hexdigest())
    if a.v:
        for k in sorted(rules):
            print("  rule %-42s %7d  worst err/tol %.3g" % (k, rules[k][0], rules[k][1]))
        print("  events", json.dumps(events, sort_keys=True))
        print("  kinds", kinds)
        slow = sorted(results, key=lambda r: -r["wall"])[:4]
        print("  slowest", [(r["case"]["kind"], r["case"]["id"], round(r["wall"], 2)) for r in slow])
        cs = {}
        for r in results:
            c = cs.setdefault(r["case"]["kind"], [0, 0.0])
            c[0] += 1
            c[1] += r["wall"]
        print("  cpu by kind", {k: (n, round(w, 1)) for k, (n, w) in cs.items()})
        for cid, s in inconcl[:8]:
            print("  inconclusive", cid, s)

    rep_dir = os.path.join(EVID, "replay")
    os.makedirs(rep_dir, exist_ok=True)
    pat = mod.ID + "-"
    for fn in os.listdir(rep_dir):
        if fn.startswith(pat):
            os.unlink(os.path.join(rep_dir, fn))
    seen = {}
    for r, v, _ in viols:
        seen.setdefault(v["rule"], []).append((r, v))
    paths = []
    for rule in sorted(seen):
        r, v = seen[rule][0]
        p = os.path.join(rep_dir, "%s%s-case%s.json" % (pat, "".join(ch if ch.isalnum() else "_" for ch in rule), r["case"]["id"]))
        json.dump({"property": mod.ID, "case": r["case"], "violation": v,
                   "same_rule": len(seen[rule]),
                   "how": ". /verif/env.sh; $VERIF_PY -m props.%s --replay <this file>" % mod.ID.lower()},
                  open(p, "w"), indent=1)
        paths.append((rule, p, len(seen[rule]), v))

    samples = []
    for k in sorted(kinds):
        for r in results:
            if r["case"]["kind"] == k:
                samples.append({"case": r["case"], "readings": r["readings"][:4],
                                "events": r["events"]})
                break
    inc_cases = len(set(i for i, _ in inconcl))
    required = list(getattr(mod, "REQUIRED_RULES", []))
    missing = [x for x in required if x not in rules] if not (a.kind or a.limit) else []
    ev = {"property": mod.ID, "tier": a.tier if a.tier in ("quick", "thorough") else "quick",
          "seed": a.seed, "level": "exploration",
          "coverage": {"evaluations": len(results), "distinct_nontrivial": len(nontriv),
                       "rule": mod.RULE,
                       "oracle_readings": sum(c for c, _ in rules.values()),
                       "readings_per_rule": {k: rules[k][0] for k in sorted(rules)},
                       "worst_error_over_tolerance": {k: (rules[k][1] if rules[k][1] < 1e98 else "failed") for k in sorted(rules)},
                       "monitored_events": dict(sorted(events.items())),
                       "distinct_states_observed": len(states),
                       "cases_per_kind": kinds,
                       "inconclusive_cases": inc_cases,
                       "inconclusive_reasons": sorted(set(s for _, s in inconcl))[:10],
                       "samples": samples[:12]},
          "wall_s": round(wall, 2),
          "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
          "violations": len(viols)}
    json.dump(ev, open(os.path.join(EVID, mod.ID + ".json"), "w"), indent=1)

    for t in sorted(set((v["rule"], t) for _, v, t in knowns)):
        print("KNOWN-FINDING: property=%s rule=%s %s" % (mod.ID, t[0], t[1]))
    for rule, p, n, v in paths:
        print("VIOLATION property=%s replay=%s" % (mod.ID, p))
        print("   rule %s failed %d times; first: %s" % (rule, n, json.dumps(v["info"])[:500]))
    print("%s tier=%s seed=%d cases=%d nontrivial=%d readings=%d violations=%d inconclusive=%d wall=%.1fs" % (
        mod.ID, a.tier, a.seed, len(results), len(nontriv), ev["coverage"]["oracle_readings"],
        len(viols), inc_cases, wall))
    if viols:
        return 1
    if harness:
        print("ERROR: harness failure in %d case(s); first:\n%s" % (len(harness), harness[0]["harness_error"]))
        print(json.dumps(harness[0]["case"]))
        return 3
    if dead:
        print("ERROR: worker died: %s" % dead[:2])
        return 3
    if missing:
        print("ERROR: required monitors never fired: %s" % missing)
        return 3
    if inc_cases * 4 > len(results):
        print("ERROR: too many inconclusive cases (%d of %d)" % (inc_cases, len(results)))
        return 3
    return 0
