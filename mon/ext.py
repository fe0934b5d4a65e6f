"""Builds the compiled extensions of evoMPS from the tree under test into a scratch copy, with and without sanitizers.

A tree is <scratch>/<variant>-<flavour>/evoMPS: the .py files of the tree under test next to extension modules compiled
from the .c files it ships ("shipped") or from a fresh translation of its .pyx files ("fresh"); flavour "asan" is built
with AddressSanitizer and UndefinedBehaviorSanitizer, "plain" as a user would."""
import json
import os
import shutil
import subprocess
import sys
import sysconfig
import tempfile
from . import core

SAN = ["-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize=vptr",
       "-fno-sanitize-recover=undefined"]
PLAIN = ["-O2"]
SHIPPED = ["matmul", "core_common", "allclose", "tdvp_calc_C", "eps_maps_c"]
FRESH = ["allclose", "tdvp_calc_C", "eps_maps_c"]


class BuildError(Exception):
    pass


def _run(cmds, cwd=None):
    ps = [(c, subprocess.Popen(c, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)) for c in cmds]
    bad = None
    for c, p in ps:
        out = p.communicate()[0].decode(errors="replace")
        if p.returncode and bad is None:
            bad = "%s\n%s" % (" ".join(c), out[-2000:])
    if bad:
        raise BuildError(bad)


def build(trees):
    """trees: [(variant, flavour)] -> scratch directory."""
    import numpy
    root = tempfile.mkdtemp(prefix="evomps-ext-")
    try:
        inc = ["-I" + sysconfig.get_paths()["include"], "-I" + numpy.get_include()]
        suf = sysconfig.get_config_var("EXT_SUFFIX")
        src = os.path.join(core.REPO, "evoMPS")
        cy = os.path.join(root, "cython")
        shutil.copytree(src, os.path.join(cy, "evoMPS"), ignore=shutil.ignore_patterns("*.c", "tests", "__pycache__"))
        if any(v == "fresh" for v, _ in trees):
            _run([[sys.executable, "-m", "cython", "-w", cy, "evoMPS/%s.pyx" % f, "-o", os.path.join(cy, f + ".c")]
                  for f in FRESH], cwd=cy)
        cmds = []
        for v, fl in trees:
            d = os.path.join(root, "%s-%s" % (v, fl), "evoMPS")
            os.makedirs(d)
            for f in os.listdir(src):
                if f.endswith(".py"):
                    shutil.copy(os.path.join(src, f), d)
            flags = SAN if fl == "asan" else PLAIN
            base = ["gcc", "-shared", "-fPIC", "-w", "-fopenmp"] + flags + inc
            for f in SHIPPED if v == "shipped" else FRESH:
                c = os.path.join(src if v == "shipped" else cy, f + ".c")
                cmds.append((os.path.getsize(c), base + [c, "-o", os.path.join(d, f + suf)]))
            h = os.path.join(os.path.dirname(os.path.abspath(__file__)), "exthelp.c")
            cmds.append((0, base + [h, "-o", os.path.join(root, "%s-%s" % (v, fl), "exthelp" + suf)]))
        cmds = [c for _, c in sorted(cmds, key=lambda t: -t[0])]
        for i in range(0, len(cmds), 8):
            _run(cmds[i:i + 8])
        return root
    except BaseException:
        shutil.rmtree(root, ignore_errors=True)
        raise


def _lib(name):
    p = subprocess.check_output(["gcc", "-print-file-name=" + name]).decode().strip()
    if not os.path.isabs(p):
        raise BuildError("no " + name)
    return os.path.realpath(p)


def call(root, tree, case, threads=1, timeout=140):
    """Run mon.extinner on `case` inside the tree; (result or None, sanitizer/crash report or None)."""
    d = os.path.join(root, tree)
    tmp = tempfile.mkdtemp(prefix="w-", dir=root)
    env = dict(os.environ, EVOMPS_REPO=d, PYTHONPATH=d + ":" + core.VERIF, OMP_NUM_THREADS=str(threads),
               OMP_DYNAMIC="false", OMP_WAIT_POLICY="passive", OPENBLAS_NUM_THREADS="1")
    if tree.endswith("asan"):
        env["LD_PRELOAD"] = _lib("libasan.so") + ":" + _lib("libubsan.so")
        env["ASAN_OPTIONS"] = "detect_leaks=0:halt_on_error=1:handle_segv=1"
        env["UBSAN_OPTIONS"] = "halt_on_error=1:print_stacktrace=1"
    try:
        o = os.path.join(tmp, "out.json")
        with open(os.path.join(tmp, "err"), "wb") as err:
            p = subprocess.Popen([sys.executable, "-W", "ignore", "-m", "mon.extinner", o, json.dumps(case)], env=env,
                                 cwd=d, stdout=err, stderr=err, stdin=subprocess.DEVNULL)
            try:
                rc = p.wait(timeout)
            except BaseException as e:
                p.kill()
                p.wait()
                if isinstance(e, subprocess.TimeoutExpired):
                    return None, None, "timeout"
                raise
        err = open(os.path.join(tmp, "err"), errors="replace").read()
        at = [i for i in (err.find("AddressSanitizer"), err.find("runtime error:"), err.find("UndefinedBehavior")) if i >= 0]
        rep = err[max(0, min(at) - 200):] if at else ""
        res = None
        if os.path.exists(o):
            try:
                res = json.load(open(o))
            except ValueError:
                pass
        if rep or rc < 0:
            return res, rep[:3000] or "killed by signal %d" % -rc, None
        if rc or res is None:
            return None, None, "worker failed (%d): %s" % (rc, err[-1500:])
        return res, None, None
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
