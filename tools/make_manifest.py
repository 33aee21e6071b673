#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of properties and the table of oracles below."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ORACLE = {
    "C01": "an independent row-major reference model in wide integers",
    "C02": "exact modular arithmetic and inverse/round-trip relations",
    "C03": "exact least residues and an unwrapped walker model over whole walks",
    "C04": "bijection by exhaustive distinctness and round trips",
    "C05": "quadruple-precision linear algebra with derived rounding bounds",
    "C06": "duality relations in quadruple precision with derived rounding bounds",
    "C07": "a multiset model of wrapped or dropped Bravais neighbours",
    "C08": "an exhaustive image search over a provably sufficient box, and metric axioms",
    "C09": "direct evaluation in quadruple precision, the sum rule and translation invariance",
    "C10": "parsing the written tables back and comparing with the lattice's own answers",
    "C11": "exact 2100-bit integer sums and the published error bounds",
    "C12": "two-pass statistics in quadruple precision",
    "C13": "two-pass weighted statistics in quadruple precision",
    "C14": "exact 128-bit integer statistics",
    "C15": "an exact 128-bit model of when an addition must be refused",
    "C16": "differential: restored object against the uninterrupted one, bit by bit",
    "C17": "differential: restored stream against the original stream, and the standard's own engine",
    "C18": "a model histogram with exact sums",
    "C19": "a model of the whole output file",
    "C20": "a state-machine model compared after every call",
    "C21": "exact 128-bit fractions in canonical form",
    "C22": "the sign of the exact cross difference, and order axioms",
    "C23": "an independent scanner and text round trips",
    "C24": "a counting definition of the bound with bounds-checking iterators",
    "C25": "validity of every choice, differential psums/weights, and frequencies at eight sigma",
    "C26": "exact 128-bit or quadruple-precision definitions",
    "C27": "exact element-wise definitions",
    "C28": "a reference sequence and a stepping model",
    "C29": "a quadruple-precision reference sequence and a stepping model",
    "C30": "exact evaluation of the tolerance rule and trichotomy",
    "C31": "names and values known by construction, mutated texts",
    "C32": "contents known by construction, symmetry, unchanged files",
    "C33": "rank tables giving the order by construction",
    "C34": "generated programs must compile, link, run and print known values",
    "C35": "differential: every object against a fresh one that performed the same operations, bit by bit",
    "C36": "differential: operations interleaved or in threads against the same operations alone, bit by bit, "
           "and ThreadSanitizer",
    "C37": "the text and state recorded when each error was raised",
}
checks = []
for line in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(line)["id"]
    if p == "C34":
        technique = "random program generation with shrinking; oracle: " + ORACLE[p]
        note = ("Every header alone and all of them together in every configuration, plus random "
                "multi-file programs; bounded to the installed g++ and clang++ and their dialects.")
    else:
        technique = ("property-based testing with shrinking plus coverage-guided fuzzing of the same "
                     "choice sequences; oracle: " + ORACLE[p])
        note = ("Explores random and coverage-guided cases in optimised and sanitized builds; says "
                "nothing about inputs not generated. Trusts the compilers, the standard library and "
                "the reference in the harness.")
    checks.append({"property": p, "quick_cmd": f"python3 check.py {p} --tier quick",
                   "thorough_cmd": f"python3 check.py {p} --tier thorough",
                   "evidence_file": f"evidence/{p}.json", "technique": technique,
                   "level": "exploration", "level_note": note})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": [],
     "notes": "No hooks: every property is observable through the library's public interface. "
              "Repairs of genuine defects are listed in KNOWN_FINDINGS.txt."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
