"""DESIGN.in.md -> DESIGN.md: fills in the tables, from the properties, the checks' last evidence, oracles.json and the planted bugs."""
import glob, json, os, re
os.chdir(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open("properties.jsonl")]
oracle = json.load(open("oracles.json"))


def rule(i):
    try: return json.load(open(f"evidence/{i}.json"))["coverage"]["rule"]
    except OSError: return ""


table = "\n".join(f"| **{p['id']}** {p['title']} | {rule(p['id'])} | {oracle.get(p['id'], '')} |" for p in props)
seeds = "\n".join(f"* `{os.path.basename(os.path.dirname(f))}` ({m['property']}): {m['what_it_breaks']}; needs: {m['needs']}."
                  for f in sorted(glob.glob("seeded/*/meta.json")) for m in [json.load(open(f))])
n = sum(len(re.findall(r"^m\(", open(f).read(), re.M)) for f in glob.glob("tools/muts*.py"))
t = open("DESIGN.in.md").read()
for k, v in (("TABLE", table), ("SEEDS", seeds), ("NMUT", str(n)), ("MUTS2", "")): t = t.replace(f"@@{k}@@", v)
open("DESIGN.md", "w").write(t)
