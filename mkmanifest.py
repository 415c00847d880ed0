#!/usr/bin/env python3
"""Writes MANIFEST.json from the registered rules."""
import json
import os
import sys
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
TECH = {
    "C01": "interprocedural value-flow analysis: guard of the Ok exit must entail the outer comparison for each temperature",
    "C02": "value-flow analysis: reported averages term-equal to functionals of the returned series",
    "C03": "value-flow analysis with loop summaries: Ok guard must entail the verified cycle; recurrence of the guess",
    "C04": "effect/typestate analysis of fallible calls along every loop level and in the ODE callback",
    "C05": "panic-site analysis: guards of every panicking operation under run_engine",
    "C06": "value-flow analysis of the comparison, including unordered (NaN) outcomes",
    "C07": "loop-bound and call-count analysis over loop summaries",
    "C08": "symbolic assembly of the linear system by dataflow; rows compared with the mass balances",
    "C09": "symbolic assembly of the linear system by dataflow; rows compared with the energy balances",
    "C10": "value-flow analysis: upwind selection and sign agreement entailed by the Ok guard",
    "C11": "sibling-agreement value-flow analysis of the decomposition implementations",
    "C12": "value-flow analysis of the ODE callback and of the reported points",
    "C13": "value-flow analysis of the integrator's grid arguments",
    "C14": "value-flow analysis of every state-equation input against its control volume's conditions",
    "C15": "symbolic differentiation of the fluid's value-flow terms",
    "C16": "symbolic differentiation and periodicity of the drive's value-flow terms",
    "C17": "value-flow analysis of the heat-exchanger models",
    "C18": "value-flow analysis with loop summaries of the temperature iteration",
    "C19": "configuration-to-behaviour value-flow analysis",
    "C20": "variant-dispatch value-flow analysis",
    "C21": "value-flow analysis of the legacy conversion",
    "C22": "value-flow analysis of settings and conditions into their use sites",
    "C23": "structural analysis of the type-checked deserialisers",
    "C24": "value-flow analysis of the Default implementations",
    "C25": "value-flow analysis of every reported slot against its source slot",
    "C26": "index/length value-flow analysis of all series",
    "C27": "value-flow analysis: averages term-equal to trapezoidal functionals",
    "C28": "value-flow analysis of the power figures against their defining terms",
    "C29": "value-flow analysis of the heat and efficiency figures against their defining terms",
    "C30": "value-flow analysis of the pressure-drop split",
    "C31": "symbolic energy ledger over the value-flow terms of system rows and reported figures",
    "C32": "effect analysis over the resolved call graph",
    "C39": "symbolic reading of compiled format templates and value-flow of their arguments",
}
NA = {
    "C33": "Dimension inference needs unit declarations the code does not have (every quantity is a bare f64); the equations it would protect are compared with their required form, term by term, under C08, C09, C14-C18 and C27-C31.",
    "C34": "Convergence of the nested fixed-point iterations quantifies over run-time magnitudes (contraction factors of a nonlinear map); no sound static argument in reach bounds them.",
    "C35": "The global integration error depends on run-time derivatives of the solution and on the adaptive step control of an external crate; not decidable by a static rule.",
    "C36": "The second-law bound depends on numeric magnitudes of whole trajectories; no static abstraction in reach bounds them.",
    "C37": "Positivity of temperatures and pressures along trajectories needs invariants of a nonlinear ODE over run-time data; no sound static bound in reach.",
    "C38": "Numerical agreement of decompositions depends on matrix conditioning at run time; the structural part (all solve the same system and propagate failure) is C11.",
}


def main():
    from rules import ALL
    ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
    checks, na = [], []
    for i in ids:
        if i in ALL:
            checks.append({
                "property": i,
                "quick_cmd": "python3-vt check.py %s" % i,
                "thorough_cmd": "python3-vt check.py %s --thorough" % i,
                "evidence_file": "evidence/%s.json" % i,
                "technique": TECH[i],
                "level": "other",
                "level_note": "Static analysis of the type-checked program of /repo's current tree (rustc THIR): "
                              "all paths and all inputs are covered by gated terms and loop summaries; nothing is executed. "
                              "Equality is over the reals; library calls are modelled (see DESIGN.md).",
            })
        else:
            na.append({"property": i, "reason": NA.get(i, "no check yet")})
    m = {"version": 1, "setup_cmd": "python3 -m sa.build", "checks": checks, "not_applicable": na}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
