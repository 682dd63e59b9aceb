#!/usr/bin/env python3
"""Writes properties.jsonl, MANIFEST.json and checks/*.json from the tables in tools/props/*.py."""
import json, os, glob, sys
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
PROPS, NA = [], []

def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), harnesses=(), assumptions=(), outside=(), note="", na=None):
    assert len(title) <= 80, (id, len(title))
    PROPS.append(dict(id=id, title=title, statement=" ".join(statement.split()), over=over, text=" ".join(text.split()),
        why=" ".join(why.split()), files=list(files), mechanism=list(mechanism), state=list(state), observe=list(observe),
        harnesses=list(harnesses), assumptions=list(assumptions), outside=list(outside), note=" ".join(note.split()), na=na))

def h(func, package, files, bounds="", quick=None, thorough=None, **kw):
    d = dict(package=package, files=files if isinstance(files, list) else [files], func=func, bounds=" ".join(bounds.split()),
             quick=quick or {"params": {}})
    if "params" not in d["quick"]: d["quick"]["params"] = {}
    if thorough: d["thorough"] = thorough
    d.update(kw)
    return d

for f in sorted(glob.glob(os.path.join(here, "props", "*.py"))):
    exec(compile(open(f).read(), f, "exec"))
PROPS.sort(key=lambda p: p["id"])
assert len({p["id"] for p in PROPS}) == len(PROPS)

with open(os.path.join(root, "properties.jsonl"), "w") as out:
    for p in PROPS:
        a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]]}
        if p["state"]: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
        if p["observe"]: a["observe_at"] = p["observe"]
        a["hook_needed"] = None
        for f in p["files"]:
            assert os.path.exists(os.path.join("/repo", f)), f
        out.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"], "anchors": a}) + "\n")

TECH = "symbolic execution of the Go SSA of the real code, decided by SMT (z3, cvc5)"
os.makedirs(os.path.join(root, "checks"), exist_ok=True)
for f in glob.glob(os.path.join(root, "checks", "*.json")): os.remove(f)
checks = []
for p in PROPS:
    if p["na"]:
        NA.append({"property": p["id"], "reason": p["na"]})
        continue
    c = {"property": p["id"], "technique": TECH, "harnesses": p["harnesses"], "assumptions": p["assumptions"], "outside": "; ".join(p["outside"]), "note": p["note"]}
    json.dump(c, open(os.path.join(root, "checks", p["id"] + ".json"), "w"), indent=1)
    note = "Every execution of the real functions within the bounds is decided by the solver; counterexamples are replayed natively. " + p["note"]
    if p["outside"]: note += " Outside: " + "; ".join(p["outside"]) + "."
    checks.append({"property": p["id"], "quick_cmd": f"./check.sh {p['id']} quick", "thorough_cmd": f"./check.sh {p['id']} thorough",
        "technique": TECH, "level": "model_checking", "level_note": " ".join(note.split())})
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": NA,
    "notes": "No hooks in /repo: harnesses are added to its packages through a build overlay while the code is loaded."},
    open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
# ---- DESIGN.md ----
D = [open(os.path.join(here, "DESIGN.head.md")).read()]
D.append("## 3. Properties and how each is decided\n")
for p in PROPS:
    D.append("### %s — %s\n" % (p["id"], p["title"]))
    D.append(p["statement"] + "\n")
    if p["na"]:
        D.append("**Not applicable:** " + p["na"] + "\n"); continue
    D.append("- *Quantified over*: " + p["text"] + ".")
    D.append("- *Beyond tests*: " + p["why"])
    for x in p["harnesses"]:
        t = x.get("thorough")
        D.append("- `%s` (%s): %s. Quick: %s%s" % (x["func"], ", ".join(x["files"]), x["bounds"] or "see the harness", json.dumps(x["quick"].get("params", {})),
            "; thorough: %s." % json.dumps(t.get("params", {})) if t else "; thorough: the same."))
    if p["assumptions"]: D.append("- *Assumptions*: " + "; ".join(p["assumptions"]) + ".")
    if p["outside"]: D.append("- *Outside*: " + "; ".join(p["outside"]) + ".")
    if p["note"]: D.append("- " + p["note"])
    D.append("")
D.append("## 4. Defects found\n")
for l in open(os.path.join(root, "KNOWN_FINDINGS.txt")):
    if l.startswith("finding:") or l.startswith("fixed:"): D.append("- " + l.strip())
D.append("\n## 5. Planted bugs\n\nWritten from the statements; each compiles, passes the stable tests and is shown by its `demo.sh`. `caught` is the result of the quick check of its property.\n")
caught = {}
if os.path.exists(os.path.join(here, "seeds", "results.txt")):
    caught = dict(l.split(None, 1) for l in open(os.path.join(here, "seeds", "results.txt")) if l.strip())
D.append("| bug | what it breaks | needs | result |\n|---|---|---|---|")
for f in sorted(glob.glob(os.path.join(root, "seeded", "*", "meta.json"))):
    m = json.load(open(f)); i = os.path.basename(os.path.dirname(f))
    D.append("| %s | %s | %s | %s |" % (i, m["what_it_breaks"], m["needs"], caught.get(i, "?").strip()))
D.append(open(os.path.join(here, "DESIGN.tail.md")).read())
open(os.path.join(root, "DESIGN.md"), "w").write("\n".join(D))
print(len(checks), "checks,", len(NA), "not applicable")
