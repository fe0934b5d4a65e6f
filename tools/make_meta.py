"""Writes properties.jsonl and MANIFEST.json from the one table below.

    python3 tools/make_meta.py
"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []


def P(id, title, statement, over, qtext, why, files, mech, observe, note, tech=None, state=None, na=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
                      mech=mech, observe=observe, note=note, tech=tech, state=state, na=na))


GEN = "evoMPS/mps_gen.py"
TG = "evoMPS/tdvp_gen.py"
SS = "evoMPS/split_step.py"
DY = "evoMPS/dynamics.py"
TC = "evoMPS/tdvp_common.py"
CC = "evoMPS/core_common.py"
UNI = "evoMPS/mps_uniform.py"
TU = "evoMPS/tdvp_uniform.py"
TEST = ("The stable tests run one Ising chain per feature, the low-level contraction kernels and the pseudo-inverse "
        "on one random draw; ")

P("P01", "Finite chains: gauge changes never change the physical state",
  "Updating a finite chain, restoring its canonical form (either form, any option) or automatically truncating "
  "redundant bonds leaves the represented state vector unchanged as a ray, normalises it to one when asked and keeps "
  "its norm and phase otherwise. Setting a state from tensors, as a product state, or randomly yields exactly the "
  "state described, with all reported bond dimensions matching the stored tensors and requested bond dimensions "
  "reduced only as far as neighbouring bonds and site dimensions force.",
  ["inputs", "histories", "configurations"],
  "all chain lengths, site and bond dimensions, states (also rank-deficient, product, cat-like, redundantly large "
  "bonds) and all sequences of update/restore/edit calls with all option combinations",
  TEST + "they never compare state vectors across a gauge change.",
  [GEN, TC],
  [("QR/SVD gauge sweeps", "evoMPS/tdvp_common.py:restore_RCF_r_seq, restore_LCF_l_seq, restore_RCF_l_seq, restore_LCF_r_seq"),
   ("update and truncation", "evoMPS/mps_gen.py:update, restore_RCF, restore_LCF, auto_truncate, simple_renorm"),
   ("state initialisation", "evoMPS/mps_gen.py:set_state_product, set_state_from_tensors, mps_from_tensors_gen")],
  ["tensors A[1..N] before and after every update", "bond dimensions D"],
  "every update() of a live object is hooked and the dense state vectors before/after are compared")

P("P02", "Finite chains: canonical conditions and environments hold after update",
  "After an update the stored left and right environments equal the ones computed from the stored tensors, one side "
  "is the identity on every bond and (in full canonical form) the other is diagonal, non-negative, ordered and has "
  "the squared norm as its trace. Restoring canonical form twice changes nothing physical, and check_RCF() reports "
  "each right-canonical condition that is violated on any site.",
  ["inputs", "histories", "configurations"],
  "all chains and states, both canonical forms, all option combinations, all histories of edits and updates",
  TEST + "canonical conditions are only observed through energies of one model.",
  [GEN, TC],
  [("canonical form", "evoMPS/mps_gen.py:restore_RCF, restore_LCF"),
   ("environment recursion", "evoMPS/mps_gen.py:calc_l, calc_r"),
   ("gauge sweeps", "evoMPS/tdvp_common.py:restore_RCF_r_seq, restore_RCF_l_seq, restore_LCF_l_seq, restore_LCF_r_seq")],
  ["l[n], r[n], A[n] after every update"],
  "environments are recomputed independently and the canonical conditions judged on both")

P("P03", "Finite chains: expectation values equal those of the state vector",
  "One-, two- and three-site expectation values, two-point functions at any distance, correlation functions, string "
  "expectation values, matrix-product-operator expectation values and one- and two-site reduced density matrices of a "
  "finite chain equal those computed from its state vector. This holds for any operator (array or callable, Hermitian "
  "or not), any site, any mix of site dimensions and either canonical form.",
  ["inputs", "configurations"],
  "all states, operators, positions and distances",
  TEST + "only a few Hermitian Ising observables with site dimension 2 are read.",
  [GEN, CC],
  [("expectation values", "evoMPS/mps_gen.py:expect_1s, expect_2s, expect_3s, expect_1s_1s, expect_string_1s, expect_MPO"),
   ("density matrices", "evoMPS/mps_gen.py:density_1s, density_2s"),
   ("contraction kernels", "evoMPS/core_common.py:eps_l_op_1s, eps_r_op_1s, eps_r_op_MPO")],
  ["return values of the query methods"],
  "each returned value is compared with the dense state vector, tolerance 1e-9")

P("P04", "Finite chains: Schmidt spectra, entropy and truncation are faithful",
  "Schmidt coefficients and entanglement entropies reported at any cut equal those of the state vector. Truncating "
  "bonds in canonical form keeps the largest Schmidt weights (optimal for one bond, error bounded by the discarded "
  "weight for several) and reaches the requested dimensions, and automatic truncation removes exactly the weights "
  "below its threshold relative to the norm, leaving valid environments.",
  ["inputs", "histories"],
  "all states, cuts, target dimensions (including none) and thresholds, both canonical forms, full and minimal update",
  TEST + "truncation and entropies are not exercised.",
  [GEN],
  [("spectra", "evoMPS/mps_gen.py:schmidt_sq, entropy"),
   ("truncation", "evoMPS/mps_gen.py:truncate, auto_truncate, _update_after_truncate")],
  ["Schmidt values, entropy, tensors and environments after truncation"],
  "compared with singular values of the reshaped dense state")

P("P05", "Finite chains: inner products and operator application are exact",
  "The inner product of two finite chains equals that of their state vectors, including phase and conjugation order, "
  "for any norms and bond dimensions. Applying a single-site operator or a matrix product operator anywhere yields the "
  "state obtained by acting on the state vector, normalised when updated and exact (norm included) when not.",
  ["inputs", "histories"],
  "all pairs of states and all sequences of (possibly singular, non-Hermitian) operators on any sites",
  TEST + "no inner product or operator application is checked.",
  [GEN, TC],
  [("inner product", "evoMPS/mps_gen.py:inner"),
   ("operator application", "evoMPS/mps_gen.py:apply_op_1s, apply_op_MPO; evoMPS/tdvp_common.py:apply_MPO_local")],
  ["return value of the inner product; tensors after operator application"],
  "compared with dense vectors over random operation histories")

exec(open(os.path.join(HERE, "tools", "props_more.py")).read()) if os.path.exists(
    os.path.join(HERE, "tools", "props_more.py")) else None


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in PROPS:
            anchors = {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                       "observe_at": p["observe"], "hook_needed": None}
            if p["state"]:
                anchors["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in p["state"]]
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                                "quantifier": {"over": p["over"], "text": p["qtext"]},
                                "why_tests_cant": p["why"], "anchors": anchors}) + "\n")
            assert len(p["title"]) <= 80, p["id"]
            assert p["statement"].count(". ") <= 2, p["id"]
    checks, na = [], []
    for p in PROPS:
        if p["na"]:
            na.append({"property": p["id"], "reason": p["na"]})
            continue
        if not os.path.exists(os.path.join(HERE, "props", p["id"].lower() + ".py")):
            na.append({"property": p["id"], "reason": "check not built yet"})
            continue
        checks.append({"property": p["id"], "quick_cmd": "./run.sh %s --tier quick" % p["id"],
                       "thorough_cmd": "./run.sh %s --tier thorough" % p["id"],
                       "evidence_file": "evidence/%s.json" % p["id"],
                       "technique": p["tech"] or "runtime monitoring: online monitors on hooked live objects with a dense state-vector oracle under randomised workloads",
                       "level": "exploration",
                       "level_note": "Runs the unmodified package and " + p["note"] + ". Assurance is for the sampled executions only; "
                       "trusts numpy/scipy and the dense oracle in mon/."})
    m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
         "notes": "No hooks live in /repo: monitors wrap methods of live objects at run time from /verif/mon."}
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
    print(len(checks), "checks,", len(na), "not applicable")


if __name__ == "__main__":
    main()
