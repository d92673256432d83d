#!/usr/bin/env python3
import json, os
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
T = {
 "C01": ("differential testing against an independent reference model (automatic differentiation), random structured inputs",
         "Every output compared with an independently written evaluation of the published equation, within a computed rounding bound; trusts the frozen coefficient tables."),
 "C02": ("differential testing against an independent reference model (automatic differentiation), random structured inputs",
         "Every output compared with an independently written evaluation of the published equation, within a computed rounding bound; trusts the frozen coefficient tables."),
 "C03": ("metamorphic property-based testing: exact identities and Richardson-extrapolated finite differences of the code's own outputs",
         "Needs no reference values; finite differences resolve relative errors of about 1e-6."),
 "C04": ("property-based testing: inverse check (density then pressure) with the code and an independent reference",
         "Round trip over generated states, flags and guesses; tolerance from the local sensitivity."),
 "C05": ("property-based testing with failure-provoking generators against the documented failure contract",
         "Checks result, density and inputs after every generated failing or extreme call."),
 "C06": ("property-based testing: completeness against bracketing root search on the reference isotherm",
         "Claims success only where the reference isotherm is strictly increasing and away from the critical region."),
 "C07": ("property-based testing against the reference's spinodals and metamorphic relations between flags and guesses",
         "Root choice is judged only where vapour and liquid branches are clearly separated."),
 "C08": ("stateful (history) property-based testing: one instance against a fresh instance after every step",
         "Histories of up to 40 operations; comparison at 1e-12 relative."),
 "C09": ("property-based testing of acceptance limits with stateful atomicity check",
         "Cases within rounding of a limit are not judged."),
 "C10": ("differential testing against frozen substance data and the reference model, through Rust and C interfaces",
         "All fractions distinct in the mixtures used."),
 "C11": ("algebraic property-based testing (scale, ratio, idempotence, atomic failure) over the whole double range",
         "Exact sums by compensated summation."),
 "C12": ("metamorphic property-based testing of the zero-density limit, mixing rules and reference state",
         "Limits resolved to about 1e-9."),
 "C13": ("stateful differential testing of the C interface against the Rust interface; null probes in child processes",
         "Histories of up to 40 calls, bitwise comparison; null handles probed in child processes that load the shipped library."),
 "C14": ("generated cases driven through C programs compiled against the generated header, differential with Rust",
         "gcc and g++; static and shared library of the release profile."),
 "C15": ("stateful property-based testing of generated interleavings, single- and multi-threaded, differential with solo runs",
         "Thread schedules are sampled by the operating system; interleavings on one thread are generated exactly."),
 "C16": ("robustness fuzzing with arbitrary doubles in call sequences, supervised child process",
         "A case that uses 25 s where normal cases take microseconds counts as not returning."),
 "C17": ("metamorphic property-based testing of small perturbations",
         "Bounds from the reference's sensitivity; jumps smaller than the bound are not seen."),
 "C18": ("differential property-based testing between the two models",
         "Tolerances from the stated uncertainties; catches only errors larger than these."),
 "C19": ("stateful property-based testing of all public fields before and after each call",
         "Bitwise comparison of fields that a call must not change."),
 "C21": ("metamorphic property-based testing: difference quotients over pressure and temperature of density-then-properties",
         "Judged where density is well conditioned and neighbours stay on one branch; resolves about 1e-7 relative."),
 "C22": ("property-based testing: invariants (physical ranges, monotonicity) over the operating range of natural gas",
         "Independent of tables and reference; detects implausible values and reversed trends only."),
 "C23": ("property-based comparison of pure-component outputs with independent reference-book data over generated temperatures",
         "Tolerances are those of the correlations; errors smaller than these are left to C01/C02."),
 "C24": ("metamorphic property-based testing of phase equilibrium (equal Gibbs energy, Clausius-Clapeyron) and comparison with an independent vapour pressure correlation",
         "Pure substances at 0.7 to 0.985 of the critical temperature, GERG-2008 only."),
 "C20": ("stateful property-based testing of lifetimes under a counting, poisoning allocator",
         "Repeated histories; memory set up once on first use is not counted as a leak."),
}
import sys
claimed = sys.argv[1].split(",") if len(sys.argv) > 1 else sorted(T)
checks = []
for p in props:
    if p["id"] not in claimed: continue
    t, n = T[p["id"]]
    checks.append(dict(property=p["id"], quick_cmd=f"./check.sh run {p['id']}",
        thorough_cmd=f"VERIF_TIER=thorough ./check.sh run {p['id']}", technique=t, level="exploration", level_note=n))
m = dict(version=1, setup_cmd="./check.sh list", checks=checks,
  not_applicable=[dict(property=p["id"], reason="check under construction") for p in props if p["id"] not in claimed],
  notes="No hooks: the checks use only the public Rust interface, the C interface and the generated header. Fixed defects are listed in known-findings.txt.")
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
