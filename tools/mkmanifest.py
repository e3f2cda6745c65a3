"""Writes MANIFEST.json from the table of claimed checks."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TRACE = "TLA+ specification; traces of the real code checked by TLC"
LEVEL = {}
def c(p, tech, note): LEVEL[p] = (tech, note)
c("G01", TRACE + " (boundary pairs and random operands)", "Every recorded result is compared with the exact integer arithmetic of spec/math/IntMath.tla; trusts TLC and the recorder.")
c("M01", "TLA+ grammar and semantics of expressions; TLC generates expressions, the real interpreter's results are checked by TLC", "spec/mandos/Expr.tla defines every expression's bytes including Keccak; inputs are TLC-enumerated and seeded random, not exhaustive.")
c("M02", "TLA+ specification of the JSON subset; TLC enumerates documents, the real parser and printer are checked by TLC", "All token sequences up to a bounded length plus seeded random and mutated documents.")
c("M05", "TLA+ specification of rendered forms, evaluated back through the expression specification by TLC", "Seeded random byte strings for every hint; the rendered text is checked by spec/mandos/Expr.tla.")
c("V16", "TLA+ model of ideal signatures and executable TLA+ hash functions; traces of the real code checked by TLC", "Digests are computed by the specification; signature schemes are ideal, probed with altered keys, messages, signatures and concurrent use.")
exec(open(os.path.join(V, "tools", "claims.py")).read()) if os.path.exists(os.path.join(V, "tools", "claims.py")) else None
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = [dict(property=p, quick_cmd="python3 check.py %s quick" % p, thorough_cmd="python3 check.py %s thorough" % p,
               evidence_file="evidence/%s.json" % p, technique=LEVEL[p][0], level="model_checking", level_note=LEVEL[p][1])
          for p in props if p in LEVEL]
NA = globals().get("NA", {})
na = [dict(property=p, reason=NA.get(p, "Not built yet: the part of the specification that decides it is still being written.")) for p in props if p not in LEVEL]
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na,
         notes="See DESIGN.md. No hooks in /repo are needed: the harness uses the exported API; libwasmer is replaced by harness/stub.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
