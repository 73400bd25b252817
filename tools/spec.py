#!/usr/bin/env python3
"""The single source of properties.jsonl, checks.json and MANIFEST.json.
Run it after editing: python3 tools/spec.py"""
import re, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "packages/teleparse/src/"
M = "packages/macros/src/"

LEX = ("One 9-variant lexicon (harness/src/lang.rs: literals, regexes, several terminals per variant, ignored spaces, an extracted "
       "comment, semantic-only types) and the fixed grammars of harness/src/grams.rs")
OUT = ("Longer sources; bytes outside the stated alphabet; other grammars and lexicons; hooks and semantic actions; "
       "stack exhaustion on deep nesting; the regular-expression engine (the lexicon's regexes compile to the byte classes logos generates)")
GOUT = ("Grammars with more symbols or longer productions than stated; other sets of terminals; the derive macros' own translation "
        "of types into these calls is exercised by the concrete grammars of C05 to C15")
NAMES = "SABCDE"
def shapes(bin, tier):
    """The grammar shapes of a harness, in words."""
    import re
    out = []
    for h, terms, again, body in re.findall(r"^    ([ht]_\w+) => shape!\(\w+; \[([A-Z, ]+)\]; true, (\w+); ([^)]*)\);", open(f"{V}/harness/src/bin/{bin}.rs").read(), re.M):
        if h[0] == "t" and tier == "quick":
            continue
        rules = ", ".join(f"{NAMES[i]} {'a sequence' if k == 'seq' else 'a union'} of {n}" for i, (k, n) in enumerate(x.split() for x in body.split(", ")))
        out.append(f"{rules} ({len(terms.split(','))} terminals{', S may recur' if again == 'true' else ''})")
    near = re.findall(r"^    ([ht]_n_\w+) => near!\(([A-Z |]+); (\d+), (\d+); \"([^\"]*)\"\);", open(f"{V}/harness/src/bin/{bin}.rs").read(), re.M)
    by = {}
    for h, asp, q, t, rules in near:
        if h[0] == "h" or tier == "thorough":
            by.setdefault((int(q if tier == "quick" else t), "TAIL" in asp), []).append(rules + (" (rules added from the last to the first)" if "BACK" in asp else ""))
    more = "".join(f"; and {len(r)} grammars of 3 to 40 rules with any {n} symbol{'s' * (n > 1)} of their {'last five places replaced by any of the last six non-terminals, the terminals and the empty symbol' if tail else 'rules replaced by any symbol'} (0 to 7 are 8 terminals): " + ", ".join(f"'{x}'" for x in r) for (n, tail), r in sorted(by.items()))
    return (f"{len(out)} grammar shapes; in each, every symbol of every rule is symbolic and ranges over all nonterminals, the terminals and the empty "
            "symbol, so that all grammars of the shape are covered: " + "; ".join(out) + more)

PROPS = []

ALPHA = {"TOKENS_ONLY": "abcdA0123+*();", "EVERYTHING": "abcd0123+*();, space, the extracted # and the invalid ! and ?", "QUOTED": "abcA'1+*();"}
def parses(bin, tier, where="grammars of harness/src/grams.rs"):
    """The sources of a harness, in words."""
    by = {}
    for h, g, q, t, alpha, asp in re.findall(r"^    ([ht]_\w+) => parse_of!\((\w+)::\w+, (\d+), (\d+), (\w+), ([^)]*)\);", open(f"{V}/harness/src/bin/{bin}.rs").read(), re.M):
        if h[0] == "t" and tier == "quick": continue
        by.setdefault((alpha, "AGAIN" in asp, "PREDICT" in asp), {}).setdefault(int(t if tier == "thorough" else q), []).append(g)
    out = []
    for (alpha, again, predict), n in by.items():
        out.append("every source over the bytes " + ALPHA[alpha] + (" (parsed twice in a row)" if again else "") + (" (against a predictive parser)" if predict else "") + " of "
                   + ", ".join(f"0 to {k} bytes for {' '.join(g)}" for k, g in sorted(n.items())))
    by = {}
    for h, g, q, t, alpha in re.findall(r"^    ([ht]_\w+) => pump_of!\((\w+)::\w+, (\d+), (\d+), (\w+), ", open(f"{V}/harness/src/bin/{bin}.rs").read(), re.M):
        by.setdefault((int(t if tier == "thorough" else q), alpha), []).append(g)
    for (n, alpha), g in by.items():
        out.append(f"every long source over the bytes {ALPHA[alpha]} made of 0 to 1 bytes, then {n} times the same 1 to 2 bytes, then 0 to {2 if tier == 'thorough' else 1} bytes, for {' '.join(g)}")
    src = open(f"{V}/harness/src/bin/{bin}.rs").read()
    pick = lambda q, t: int(t if tier == "thorough" else q)
    by = {}
    for h, g, q, t, alpha in re.findall(r"^    ([ht]_\w+) => nest_of!\((\w+)::\w+, (\d+), (\d+), (\w+), ", src, re.M):
        by.setdefault((pick(q, t), alpha), []).append(g)
    for (n, alpha), g in by.items():
        out.append(f"every nested source over the bytes {ALPHA[alpha]} made of {n} times one byte, then 0 to {2 if tier == 'thorough' else 1} bytes, then {n} times one byte, for {' '.join(g)}")
    for h, g, k, q, t, alpha in re.findall(r"^    ([ht]_\w+) => turns_of!\((\w+)::\w+, (\w+)::\w+, (\d+), (\d+), (\w+)\);", src, re.M):
        out.append(f"every source of up to {pick(q, t)} bytes over {ALPHA[alpha]} parsed by {g} and {k} in turn on one parser until nothing is left")
    by = {}
    for h, g, q, t, alpha in re.findall(r"^    ([ht]_\w+) => far_of!\((\w+)::\w+, (\d+), (\d+), (\w+), ", src, re.M):
        by.setdefault((pick(q, t), alpha), []).append(g)
    for (n, alpha), g in by.items():
        out.append(f"every source of 65600 ignored characters, then 1 to {n} bytes over {ALPHA[alpha]}, for {' '.join(g)}")
    return where + "; " + "; ".join(out)

def prop(id, title, statement, over, quant, why, files, mech, bin=None, covers=None, bounds=None, outside=OUT, time=(240, 780), assumptions=(), **kw):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech,
                      bin=bin, covers=covers or [], bounds=bounds, outside=outside, time=list(time), assumptions=list(assumptions), **kw))

exec(open(os.path.join(V, "tools", "props.py")).read())

claimed = [p for p in PROPS if p["bin"]]
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quant"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}}) + "\n")
with open(os.path.join(V, "checks.json"), "w") as f:
    d = {}
    for p in claimed:
        e = {"bin": p["bin"], "covers": p["covers"], "time": p["time"], "bounds": p["bounds"], "outside": p["outside"]}
        if p["assumptions"]:
            e["assumptions"] = p["assumptions"]
        for k in ("steps", "depth", "heap"):
            if k in p:
                e[k] = p[k]
        d[p["id"]] = e
    json.dump(d, f, indent=1)
    f.write("\n")
m = {"version": 1, "setup_cmd": "./check --build",
     "checks": [{
         "property": p["id"],
         "quick_cmd": f"./check {p['id']} --tier quick",
         "thorough_cmd": f"./check {p['id']} --tier thorough",
         "technique": "symbolic execution of the compiled crate's LLVM IR (own executor over rustc's optimised module) with Z3 deciding every "
                      "branch and assertion; counterexamples replayed on the native build",
         "level": "model_checking",
         "level_note": p.get("note") or "Every path within the stated bounds is decided by the solver; nothing is claimed beyond the bounds.",
     } for p in claimed],
     "not_applicable": [{"property": p["id"], "reason": p["na"]} for p in PROPS if not p["bin"]]}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
