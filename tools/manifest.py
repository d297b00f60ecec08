#!/usr/bin/env python3
"""Writes MANIFEST.json from contracts/props.json and the notes below."""
import json
P = json.load(open("/verif/contracts/props.json"))
NOTE = {
 "C01": "Postconditions on every operator impl of Complex over abstract coefficient operations, proved for all coefficient types.",
 "C02": "The ring, conjugation and norm laws are lemmas over the values the operator contracts (C01) return, proved for all commutative rings.",
 "C03": "Postconditions on the Div impls plus the lemma that the returned number times the divisor is the dividend in every field with 1+1 allowed to be anything.",
 "C04": "Postconditions stating the defining formulas over uninterpreted real functions of the coefficient type.",
 "C05": "Postcondition over an exact real-valued view of the coefficients (rounding is not modelled), both branches; floats are cross-checked with a tolerance.",
 "C06": "Loop invariant of Horner's scheme plus the lemma that it is the power sum; every length.",
 "C07": "Loop invariants against the coefficient sums, every pair of lengths (sum of lengths below usize::MAX).",
 "C08": "== is proved to be equality of all coefficients; ring and homomorphism laws are lemmas by induction.",
 "C09": "Contracts over arrays of symbolic dimension.",
 "C10": "Contracts over arrays of symbolic shape.",
 "C11": "Nested loop invariants against row-by-column sums, symbolic L, M, N.",
 "C12": "Ring laws as lemmas over the values the SMatrix contracts (C10, C11) return, symbolic N.",
 "C13": "Contracts of the VectorExpr trait (length, entry relation), every impl and eval verified against them.",
 "C14": "Contracts of the combinators; panics modelled by a ghost switch so both 'panics on mismatch' and 'does not panic on match' are obligations.",
 "C15": "Loop invariants for +=, -= and the dot product; panics as in C14.",
 "C16": "Contracts of the MatrixExpr trait and row-major indexing lemmas; out-of-range indices proved to panic.",
 "C17": "Contracts of the matrix combinators; panics as in C14.",
 "C18": "Row-by-column sum as loop invariant, inner dimension at least 1.",
 "C19": "Loop invariants for += and -=: every entry once, shape unchanged, mismatch panics.",
 "C20": "Postconditions on zeros, ones, same, eye for every size including 0.",
 "C21": "Each impl is proved to return the std function of that name (uninterpreted) applied to its operands.",
 "C22": "Every call of the comparator is recorded in a ghost log; invariants carry 'for every candidate so far some surviving member is not worse' through both loops, for every strict weak order at once.",
 "C23": "The populations are a ghost function of the recorded comparisons; each trial is proved to be built from three distinct other members; initial candidates within bounds (contract of rand assumed).",
 "C24": "Panic conditions as in C14 with the comparator gated on valid arguments; the number and second arguments of the recorded comparisons are counted.",
 "C26": "Postcondition over the real numbers the floats stand for (rounding is not modelled), std's sqrt, exp, exp_m1 and cos uninterpreted; the minimum and the symmetries are lemmas. Rounding is looked at by the bounded comparison only.",
}
checks = []
for p in sorted(P):
    checks.append({
        "property": p,
        "quick_cmd": f"python3 run.py {p}",
        "thorough_cmd": f"python3 run.py {p} --thorough",
        "technique": "contract-based deductive verification of the extracted source with Verus",
        "level": "proof",
        "level_note": NOTE[p] + " Trusted: Verus/Z3, vstd, the extraction tools/vx, partial correctness where Verus cannot show termination. Executable cross-check of the real crate on every run (bounded, labelled so).",
    })
na = [{"property": "C25", "reason": "floating-point rounding error bounds: Verus has no theory of IEEE rounding (f32/f64 operations are uninterpreted), so no contract within reach can state or decide them"}]
m = {
 "version": 1,
 "setup_cmd": "python3 run.py setup",
 "checks": checks,
 "not_applicable": na,
 "notes": "No hooks in /repo are needed: the verified text is extracted from /repo/src on every run. See DESIGN.md.",
}
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
