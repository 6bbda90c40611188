"""Writes MANIFEST.json (committed; run by hand after changing the checks)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from core import VERIF

AI = "abstract interpretation of MIR with canonical bit-level values"
T = {p: AI + "; results compared with the specification's canonical form" for p in ["C%02d" % i for i in range(1, 15)]}
T["C15"] = "secret-taint (information-flow) analysis over MIR: branch conditions, addresses, panics"
T["C16"] = "abstract interpretation of MIR: bounds, initialisation, provenance, alignment, layout rules"
T["C17"] = "abstract interpretation of MIR: reachability of panics and failed assertions"
T["C18"] = "effect analysis: statics, interior mutability, auto traits, foreign items; value analysis across call sequences"
T["C19"] = "per-configuration compilation and reachable-operation analysis against the README's selection table"
T["C20"] = "comparison of the type-checked public API across configurations"
T["C21"] = "signature and visibility rules over the type-checked crate; compile-fail witnesses with compiling twins"
T["C22"] = "item and dependency rules over the type-checked crate in every configuration"
VAL = ("Holds for every input value, in every configuration of a matrix of 132 (targets, target features, cargo features, stable and nightly), which between them select every implementation, both byte orders and word sizes; "
       "configurations whose compiled code is identical are analysed once (18 classes). The result of each entry point is computed as a canonical function of "
       "its input bits and must be identical to the specification's. ")
COM = "Trusts rustc's MIR, the models of the hardware intrinsics and of core's intrinsics, and the analyser; anything it cannot decide is reported as a violation."
N = {
    "C01": VAL + COM, "C02": VAL + COM,
    "C03": VAL + "Conversion and clone sequences of any length: a key object that went there and back, was cloned or assigned is byte for byte the object it came from; only where that fails are longer sequences enumerated. " + COM,
    "C04": VAL + COM, "C05": VAL + COM, "C06": VAL + COM, "C07": VAL + COM,
    "C08": VAL + "Chain lengths are enumerated, not arbitrary: in quick 0 to 33, and around powers of two up to 257, and around every integer constant the chain code itself contains; up to 1025 and further constants in thorough. " + COM,
    "C09": VAL + COM, "C10": VAL + COM,
    "C11": VAL + "Slice lengths are symbolic over the whole range of usize. " + COM,
    "C12": VAL + COM, "C13": VAL + COM,
    "C14": VAL + "Through core's formatting machinery, as compiled, under every combination of formatting options, and into outputs that refuse a write. " + COM,
    "C15": "No branch, address, or panic condition depends on any secret bit in the MIR of every constant-time and accelerated configuration of the matrix (14 classes of identical code), including core's code that is reached. About MIR, not machine code. " + COM,
    "C16": "Every memory access, unsafe precondition and reinterpretation reached from the public entry points, for every input, in every configuration of the matrix (18 classes of identical code). Chains up to a bounded length. " + COM,
    "C17": "No panic or failed assertion is reachable from the entry points with overflow checks and debug assertions on, for every input. " + COM,
    "C18": "Structural rules are exact; the value part covers fixed sequences of calls, justified for arbitrary histories by the absence of mutable state. " + COM,
    "C19": "A matrix of 132 configurations, with the real stable compiler for the host; the README is the oracle. Trusts rustc's target descriptions.",
    "C20": "Exact set comparison over 132 configurations, in two profiles.",
    "C21": "Signature rules are exact over the reachable API; over a thousand witness lines per run, each with its error code and a compiling twin.",
    "C22": "Exact rules over 132 configurations, in two profiles.",
}
NA = {
    "C23": "The machine code and its timing on a processor are not in the source: no sound static argument over Rust source or MIR bounds what LLVM and the processor do. C15 decides the source-level part.",
    "C24": "Relative speed depends on the processor and the optimiser; no static analysis of the source in reach bounds it.",
}
import checks
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": [], "not_applicable": [{"property": p, "reason": r} for p, r in sorted(NA.items())],
     "notes": "No hooks in /repo: everything is analysed as committed. Static analysis only; nothing of /repo is executed."}
for p in checks.PROPS:
    m["checks"].append({"property": p, "quick_cmd": "python3 check.py " + p, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p,
                        "technique": T[p], "level": checks.LEVEL[p], "level_note": N[p]})
with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
