"""MANIFEST.json from the list of claimed properties"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "contract-based deductive verification: pre/postconditions, loop invariants and frames on the LLVM IR extracted from /repo's headers on every run, every obligation discharged for all inputs, iterations and precisions by Z3; failures replayed on the compiled library"
NOTE = "Every obligation (pre/post/frame/invariant/termination/memory/overflow) generated from the current source is discharged for all values and a symbolic block count. Trusted: clang 18 and its extraction passes, the executor and lemma instances in /verif/vt, Z3, uniformity of the code in the precision between the sampled precisions (5..256 blocks)."
CLAIMED = {k: dict() for k in "C01 C04 C06 C07 C08".split()}
NA = {}
exec(open(os.path.join(HERE, "tools", "claims.py")).read())
props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
checks = []
for p in props:
    if p not in CLAIMED: continue
    c = CLAIMED[p]
    checks.append(dict(property=p, quick_cmd="python3-vt check.py %s quick" % p, thorough_cmd="python3-vt check.py %s thorough" % p,
                       technique=c.get("technique", TECH), level=c.get("level", "proof"), level_note=NOTE + (" " + c["note"] if c.get("note") else "")))
na = [dict(property=p, reason=NA.get(p, "not yet under contract")) for p in props if p not in CLAIMED]
json.dump(dict(version=1, setup_cmd="python3-vt -c 'import z3'", checks=checks, not_applicable=na,
               notes="Deductive verifier for the header-only library; see DESIGN.md. No hooks in /repo: the verified text is the LLVM IR clang emits for the headers themselves."),
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not claimed")
