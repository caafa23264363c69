import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
note = {
 "C01": "proved for all 64-bit operands; overflow = abort",
 "C03": "proved; float cases under the ideal-float hypothesis",
 "C05": "proved; float cases under the ideal-float hypothesis",
 "C11": "coefficients, residual, order, well-formedness and the printed form of an expansion proved",
 "C12": "the laws of limits are proved from the definition of a limit; relative to the engine's documented hidden-zero assumption",
 "C14": "proved that the printed text is the specified rendering; text of machine numbers uninterpreted",
 "C16": "every panic site, unwrap and index is a discharged obligation; overflow aborts are permitted by the statement",
 "C19": "proved for every run of the limit engine that returns; its termination is not proved",
 "C17": "decreases measures on every recursive function and loop outside the limit engine (excluded by the statement)",
}
checks = []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)
    i = p["id"]
    checks.append({"property": i, "quick_cmd": "python3-vt check.py %s --tier quick" % i, "thorough_cmd": "python3-vt check.py %s --tier thorough" % i,
        "evidence_file": "evidence/%s.json" % i, "technique": "contract-based deductive verification (Verus) of the mechanically extracted real functions; failed obligations are replayed on the real code by an input search",
        "level": "proof", "level_note": note.get(i, "proved for all inputs") + ". Trusted: Verus/Z3, extractor, std prelude, the axioms listed in the evidence. A function the verifier cannot read falls back to a bounded search and is reported as undecided."})
json.dump({"version": 1, "setup_cmd": "python3-vt vp/setup.py", "checks": checks, "not_applicable": []}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
