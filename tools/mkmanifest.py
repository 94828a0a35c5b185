"""writes MANIFEST.json: a check file in checks/ is claimed, the rest is not_applicable with its reason"""
import json, glob, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AI = "trace-partitioned abstract interpretation of the LLVM IR of the current C sources"
T = {
 "P01": AI + " over field elements as rational functions; identities with the curve's group law decided as polynomial identities modulo the curve equation",
 "P02": AI + " with every bit of the scalar unknown: points as combinations whose coefficients are multilinear in the bits, compared with the multiple",
 "P03": AI + " over field elements as rational functions; accessor(setter) identities decided as polynomial identities",
 "P04": AI + "; membership test and setters decided as polynomial identities, cell-by-cell comparison of curve objects",
 "P05": "constant propagation through the table lookup of every built-in name, followed by arithmetic on the constants found in the source (primality, order, Hasse interval, completeness)",
 "P06": AI + "; comparison functions applied to symbolic objects that differ in one parameter at a time",
 "P07": AI + " over symbolic byte buffers; accepted outcomes must carry the length, range and membership facts",
 "P08": AI + " over symbolic byte buffers, all lengths of the exported integers enumerated; composition with the importer decided symbolically",
 "P09": AI + " in the algebra of scalars modulo the group order and multiples of the generator",
 "P10": AI + " in the algebra of scalars modulo the group order and multiples of the generator",
 "P11": AI + " over symbolic byte buffers, all lengths of the exported integers enumerated",
 "P12": AI + " in the algebra of scalars and multiples of the generator",
 "P13": AI + " at the level of machine words: word arrays as integer terms, magnitudes as linear inequalities (polyhedral domain), canonical-residue postcondition on every path",
 "P14": AI + " at the level of machine words, with group elements of F_p* as exponents in (cyclic of order 2^s) x (cyclic of symbolic odd order)",
 "P15": AI + " over all sequences of registry lookups with symbolic moduli; frame and ownership conditions on the descriptors",
 "P16": AI + " over all outcomes of the calls that read the random device; bytes carry the identity of the read",
 "P17": "abstract interpretation of the optimised LLVM IR (clang -O2) with byte-level contents of released and cleared memory; call query on gcc's optimised dump",
 "P18": "abstract interpretation with secret-dependence tracking: branch conditions, addresses and outcomes of library calls must be free of the scalar, in all loops (fixpoint over widened values)",
 "P19": AI + " with init/use/clear typestate, ownership of allocations at every return and closing by the matching clear function",
 "P20": AI + " with the bounds of every local array, allocated block and announced output; widest accepted modulus found by interpreting the field lookup",
 "P21": AI + "; frame conditions on all input and shared objects",
 "P22": AI + "; typestate of the base table against the point's value and curve",
 "P23": "reference-ownership typestate analysis of every path of the extension functions over LLVM IR",
 "P24": "interprocedural precondition and exception-state analysis of the extension functions over LLVM IR",
 "P25": "ownership and reachability analysis of wrapper objects over LLVM IR (C) and the Go syntax tree",
 "P26": AI + " of the extension together with the library, entered through the type objects' slots and method tables; CPython calls by their documented contract, integers as symbolic bytes",
 "P27": "purity (effect) analysis of the Go syntax tree and type-checked program",
 "P28": "ownership typestate analysis over the Go control-flow graph",
 "P29": "field-sequence extraction and typestate analysis of the DER writers and readers",
 "P30": "symbolic bound analysis of buffer sizes and loop-exit analysis on error values",
 "P31": "unchecked-status dataflow analysis over LLVM IR and the Go syntax tree",
 "P36": AI + " of the extension together with the library, with concrete reference counts; the result of every outcome is released through its destructor and the counts compared",
}
NA = {
 "P32": "the arithmetic of GMP lies outside the repository: its source is not here to analyse, only the calls to it, which other checks cover",
 "P33": "the code contains no synchronisation and documents no thread-safety guarantee, so there is no discipline a static race analysis could hold it to",
 "P34": "GMP primitives have operand-dependent time and the hardware is outside any source-level argument; the control-flow part is P18",
}
LATER = "static analysis could address this, but no sound check for it was finished in the time available, so it is not claimed; breaches seen while reading are listed in DESIGN.md section 4"
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks = []; na = []
for p in props:
    i = p["id"]
    if glob.glob(f"{V}/checks/{i.lower()}_*.py"):
        checks.append({"property": i, "quick_cmd": f"python3 check.py {i} --tier quick", "thorough_cmd": f"python3 check.py {i} --tier thorough",
                       "technique": "static analysis: " + T[i], "level": "other",
                       "level_note": "static analysis; undecidable obligations are listed as undecided in the evidence and never reported as violations"})
    else: na.append({"property": i, "reason": NA.get(i, LATER)})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na}, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed", len(na), "not applicable")
