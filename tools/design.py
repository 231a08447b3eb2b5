"""Generates DESIGN.md: prose below, per-property facts from props/, seeded/, tools/*.json."""
import glob, importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(V, "lib"), os.path.join(V, "props"), os.path.join(V, "tools")]
import design_text as T

props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
out = [T.HEAD]
for p in props:
    c = importlib.import_module(p["id"].lower()).Check()
    out.append("### %s — %s\n" % (p["id"], p["title"]))
    out.append("Statement: %s\n" % p["statement"])
    out.append("Generated: %s.\n" % c.rule)
    out.append("Oracle: %s\n" % T.ORACLE[p["id"]])
    out.append("Beyond the tests: %s\n" % T.WHY[p["id"]])
    out.append("Bounds and assumptions: %s. Cost: %d cases in the quick tier, %d in the thorough tier (8 processes).\n" % (
        "; ".join(c.assumptions), c.quick, c.thorough))
out.append(T.MID)
out.append("## Seeded bugs\n")
out.append("| seed | property | needs | result of the property's check |\n|---|---|---|---|")
rf = os.path.join(V, "tools", "seedresults.json")
R = json.load(open(rf)) if os.path.exists(rf) else {}
for f in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    m = json.load(open(f))
    i = os.path.basename(os.path.dirname(f))
    out.append("| %s | %s | %s | %s |" % (i, m["property"], m["needs"].replace("|", "/").replace("\n", " "), R.get(i, "caught")))
out.append("\n" + T.SEEDNOTES)
out.append("## Reverted fixes\n")
out.append(T.REG)
rg = os.path.join(V, "tools", "regress.json")
if os.path.exists(rg):
    out.append("| fix | property | result | what |\n|---|---|---|---|")
    for h, x in json.load(open(rg)).items():
        out.append("| %s | %s | %s | %s |" % (h, x[0], x[1], x[2]))
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out) + "\n")
