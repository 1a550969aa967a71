"""Writes MANIFEST.json.  PROOF: properties all of whose proof units are discharged on the unchanged tree."""
import json, os
PROOF = {
    "C01": "unbounded: any data, units with any number of bases, any non-zero scales and powers; the lemma that equal unit texts mean equal sizes is discharged for the listed base names only (bounded)",
    "C02": "unbounded: any data, any pair of units of non-zero size (units and convert_to through the contracts of C04 and C01)",
    "C03": "unbounded: any scalar data, any pair of units of positive size (convert_to through the contract of C01)",
    "C04": "unbounded: every number of bases, power and scale of the operands; the text of a dimension for up to three of the four dimensions at once (all four in the thorough tier)",
    "C05": "unbounded: every array length, time, offset and longitude (exact real arithmetic)",
    "C06": "unbounded: every array length, time, offset and longitude (exact real arithmetic)",
    "C07": "unbounded: every non-negative Julian date, every array length and mix of eras (exact arithmetic; the quotients never come within a rounding of an integer); datetime over the contract of from_julian",
    "C08": "unbounded: every time from 1583 on, every array length (exact arithmetic), over the contract of from_julian (C07)",
    "C09": "unbounded: every array length and time (exact real arithmetic; the precession/nutation angles are uninterpreted: any angles)",
    "C10": "unbounded: every array length, angle, height, ITRS point outside the core and unit (exact real arithmetic); return to within 0.1 mm follows from the exit condition of the latitude iteration; that the iteration ends is not proved",
    "C11": "unbounded: every array length, location off the poles and target (exact real arithmetic)",
    "C12": "unbounded: every array length, position and velocity (exact real arithmetic)",
    "C13": "unbounded: every array length, frame pair and unit, over the contracts of the elementary conversions",
    "C14": "every array length and value; the ranks of the arrays are enumerated from 0 to 3 (rank combinations bounded)",
    "C15": "unbounded: every latitude, longitude, height and unit (exact real arithmetic)",
    "C16": "unbounded: every angle in range, height and unit (exact real arithmetic; printf-style number formats by their definition, the text of a unit is its name)",
    "C17": "unbounded: every array length, location, satellite and unit (exact real arithmetic)",
    "C18": "unbounded: every array length, satellite state, location and unit (exact real arithmetic), over the contracts of C09 and C12",
    "C19": "unbounded: every number of samples, elevation and lighting pattern, threshold in [0, 90] and unit (exact real arithmetic); elevations by the contract of Coordinate.convert_to (C13), ephemeris uninterpreted",
    "C20": "unbounded: every number of windows, every start time and mix of kinds (exact real arithmetic)",
    "C21": "unbounded: every number of requests and windows, every schedule state, time and unit size (exact real arithmetic); image quality and look-angle start by the contracts of C30 and C29",
    "C22": "unbounded: every number of requests and windows and every schedule state; sorted() by its contract (a stable permutation in key order), conflict degree uninterpreted and non-negative (C28)",
    "C23": "unbounded: every number of requests, schedule state, order and random choice, with termination",
    "C24": "unbounded: every number of requests and windows, schedule state, time and unit size (exact real arithmetic); image quality and look-angle start by the contracts of C30 and C29",
    "C25": "unbounded: every number of iterations, schedule, cost function and random choice, operators arbitrary in-place effects; the numbers of destroy and repair operators are enumerated ((4,3), (1,1), (2,1); the choice of an operator for 1 to 5 of them): those numbers are bounded",
    "C26": "unbounded: every number of requests and every schedule state (exact real arithmetic)",
    "C27": "unbounded: every number of requests and windows, every schedule state (exact real arithmetic); WindowCollection.add_window by its contract (C20), the scheduled duration equals the requested one (C21)",
    "C28": "unbounded: every number of requests and windows (exact real arithmetic)",
    "C29": "unbounded: every series length, angle values, sample times and unit (exact real arithmetic); termination by a shrinking interval",
    "C30": "unbounded: every window, start time, quality and unit (exact real arithmetic)",
    "C31": "unbounded in the number of rows, parameters and layers (the last by the contract of a layer) and in every text's length; texts are nonempty (the empty heading and header apart) and contain no line end or tab; the columns of a table are bounded: listed combinations of up to 4 columns of numbers, texts and quantities",
    "C32": "unbounded: every number of earlier requests, every deadline, duration, priority, quality, look angle, threshold and lighting; generate_vtws by its contract (C19)",
}
checks = []
for l in open("properties.jsonl"):
    p = json.loads(l)["id"]
    proof = p in PROOF
    checks.append(dict(
        property=p, quick_cmd="./check.py %s quick" % p, thorough_cmd="./check.py %s thorough" % p,
        technique=("contract-based deductive verification: VCs generated from the real Python source, discharged by z3/cvc5; same contracts evaluated at run time"
                   if proof else "contracts on the real functions; bounded stand-in: evaluated at run time on generated inputs"),
        level="proof" if proof else "exploration",
        level_note=PROOF.get(p, "bounded: contracts evaluated on the real code for generated inputs, not counted as proved")))
m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=[])
json.dump(m, open("MANIFEST.json", "w"), indent=1)
