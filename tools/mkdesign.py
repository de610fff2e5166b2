"""Write DESIGN.md: the text below + bounds and assumptions of every check + what the planted bugs showed."""
import ast, glob, json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
man = json.load(open(os.path.join(ROOT, "MANIFEST.json")))
claimed = {c["property"] for c in man["checks"]}
na = {n["property"]: n["reason"] for n in man.get("not_applicable", [])}
notes = {}
cur = None
for l in open(os.path.join(ROOT, "tools", "design_notes.md")):
    if l.startswith("### C"):
        cur = l[4:7]; notes[cur] = ""
    elif l.strip() in ("# HEAD", "# BUGS", "# TAIL"):
        cur = l[2:].strip(); notes[cur] = ""
    elif cur: notes[cur] += l
out = [notes["HEAD"].strip(), "", "## Properties", ""]
for p in props:
    i = p["id"]
    out += ["### %s %s" % (i, p["title"]), ""]
    if i in claimed:
        t = ast.parse(open(os.path.join(ROOT, "checks", i.lower() + ".py")).read())
        env = {}
        for n in t.body:
            if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ("BOUNDS", "ASSUMPTIONS"):
                env[n.targets[0].id] = ast.literal_eval(n.value)
        out += [notes.get(i, "").strip(), "", "* quick bounds: %s." % env["BOUNDS"]["quick"], "* thorough bounds: %s." % env["BOUNDS"]["thorough"]]
        out += ["* assumed: %s." % a for a in env["ASSUMPTIONS"]] + [""]
    else:
        out += ["Not claimed: " + na.get(i, ""), ""]
out += ["## Planted bugs", "", notes["BUGS"].strip(), "", "| bug | property | caught by its check | what it needs |", "|---|---|---|---|"]
mx = {}
f = os.path.join(ROOT, "data", "matrix.txt")
if os.path.exists(f):
    for l in open(f):
        w = l.split()
        if len(w) > 3: mx[w[0]] = "yes, %s" % w[3] if w[2] == "rc=1" else "NO"
for d in sorted(glob.glob(os.path.join(ROOT, "seeded", "*"))):
    m = json.load(open(os.path.join(d, "meta.json")))
    b = os.path.basename(d)
    out.append("| %s | %s | %s | %s |" % (b, m["property"], mx.get(b, "not run"), m["needs"].replace("|", "/")))
out += ["", notes["TAIL"].strip(), ""]
open(os.path.join(ROOT, "DESIGN.md"), "w").write("\n".join(out))
