#!/usr/bin/env python3
"""Writes MANIFEST.json: every property of properties.jsonl is either claimed (TECH) or not."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REF = "generated texts (syntax sketches, mutations, corpus), differential against "
LOG = "grammar-directed generation of supported texts, differential against an independent reference interpreter (up to variable renaming and associativity)"
TECH = {
 "C01": REF + "the words of a reference PEG interpreter",
 "C02": REF + "a reference PEG interpreter and AST builder",
 "C03": REF + "spans computed from the reference AST",
 "C04": REF + "the deepest failure of a reference PEG interpreter, with CPU-time limits",
 "C05": "mutation and random-byte fuzzing of all entry points with a totality oracle, watchdog on CPU, memory and stack",
 "C06": "model-based call histories on one Parser against a new Parser per call, with mutation of results and concurrent parsers",
 "C07": REF + "the word rule of a reference PEG interpreter, at every offset",
 "C08": "metamorphic: each text is re-spelled and both are parsed",
 "C09": "algebraic laws and a reference speller over generated words",
 "C10": "generated trees and pruning visitors against a reflective traversal model",
 "C11": "generated pairs of trees and single-change mutants against the equality of reference dumps",
 "C12": "generated trees against a reference brace printer",
 "C13": "grammar-directed generation; repeated, interleaved and mutated interpretations compared, with a totality oracle",
 "C14": "grammar-directed generation; well-formedness invariants over every interpretation",
 "C15": LOG + ", weighted to connectives",
 "C16": LOG + ", weighted to prenexes, linked terms and many sentences",
 "C17": LOG + ", weighted to quantifiers, roi and focus",
 "C18": LOG + ", weighted to variables, hoa and relative clauses",
 "C19": LOG + ", weighted to predicatizers, quotes, content clauses and serials",
 "C20": LOG + ", weighted to adverbs and prepositions",
 "C21": "metamorphic: pairs of renderings of one sketch whose abstract syntax is equal must print the same interpretation",
 "C22": "round-trip: String is read back by an independent parser of the notation and compared to the formula",
 "C23": "generated interpretations against a traversal model of the formula, and the AST references against the reference AST",
 "C24": "generated request histories and concurrent mixes against the real server process, compared to the library's and the reference's analysis",
 "C25": "generated event histories through a fake chat service into the real bot process, compared to a model of the replies",
 "C26": "generated server responses and faults through an in-process HTTP server, compared to a model of the map",
 "C28": "generated server answers and faults served to the real program through a TLS proxy, the written source type-checked, evaluated and compared to a model of the map",
 "C29": "generated mixes of concurrent uses behind a barrier, with everything built with Go's race detector, and a sequential run of the same uses as the model of the results",
 "C30": "generated texts, the printed trees and formulas compared to a reference printer",
 "C31": "generated sequences of texts entered in the real server's page, whose scripts run on a recording document, compared to the library's analysis",
 "C27": "generated inputs run through the real program, compared to the library's and the reference's analysis",
}
NOTE = "sampled: a pass means no counterexample among the generated cases counted in the evidence"
CLAIMED = json.load(open(os.path.join(HERE, "tools", "claimed.json")))
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 vrun.py --setup",
     "checks": [{"property": i, "quick_cmd": "python3 vrun.py %s quick" % i, "thorough_cmd": "python3 vrun.py %s thorough" % i,
                 "evidence_file": "evidence/%s.json" % i, "technique": "property-based testing: " + TECH[i], "level": "exploration",
                 "level_note": NOTE} for i in ids if i in CLAIMED],
     "not_applicable": [{"property": i, "reason": "no check yet (under construction)"} for i in ids if i not in CLAIMED],
     "notes": "See DESIGN.md. No hooks are used; all changes to /repo are fix: commits, listed in known-findings.txt."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write("\n")
