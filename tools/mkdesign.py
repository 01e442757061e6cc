"""writes DESIGN.md from tools/design_head.md, the harnesses, known findings, planted bugs and tools/design_tail.md"""
import glob, json, os, re, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R)
sys.path.insert(0, os.environ.get("FOXES_REPO", "/repo"))
from symx import runner
runner.load()
rd = lambda p: open(os.path.join(R, p)).read()
out = [rd("tools/design_head.md"), "\n## 4. Properties and their cases\n\nEvery case is decided by the method of section 1. Numbers in brackets: quick + additional thorough cases. {x} is a parameter of the case.\n"]
for l in rd("properties.jsonl").splitlines():
    d = json.loads(l)
    out.append(f"\n### {d['id']} {d['title']}\n\n{d['statement']}\n\nSymbolic: {d.get('quantification', d.get('quantifier', ''))}\n" if False else f"\n### {d['id']} {d['title']}\n\n{d['statement']}\n")
    by = {}
    for c in runner.CASES.get(d["id"], []):
        e = by.setdefault(c.name, [c.fn.__doc__ or "", c.bounds, 0, 0])
        e[2 if c.tier == "quick" else 3] += 1
    for n, (doc, b, q, t) in by.items():
        out.append(f"* `{n}` [{q}+{t}] {' '.join(doc.split())}. Bounds: {b or 'as in the harness'}")
    out.append("")
out.append(rd("tools/design_tail.md"))
out.append("## 6. Defects found\n\nEach was shown by a counterexample on the real code. Repaired ones are `fix:` commits in /repo, the checks pass on the repaired tree and report the violation on the original one; the others are listed in `known_findings.json`.\n")
for f in json.loads(rd("known_findings.json"))["findings"]:
    out.append(f"* {f['what'] if f['status'] == 'fixed' else 'KNOWN ' + f['property'] + ' `' + f['case'] + '`: ' + f['what']}")
out.append("\n" + (rd("tools/design_defects.md") if os.path.isfile(os.path.join(R, "tools/design_defects.md")) else ""))
out.append("\n## 7. Planted bugs\n\nWritten from the statements of the properties; each builds and passes the stable tests. In `seeded/`, each with the check that reports it (quick tier).\n")
for p in sorted(glob.glob(os.path.join(R, "seeded/*/meta.json"))):
    m = json.load(open(p))
    out.append(f"* `{os.path.basename(os.path.dirname(p))}` ({m['property']}): {m['what_it_breaks']} Needs: {m['needs']}")
if os.path.isfile(os.path.join(R, "tools/design_bugs.md")):
    out.append("\n" + rd("tools/design_bugs.md"))
out.append("\n" + rd("tools/design_cost.md") if os.path.isfile(os.path.join(R, "tools/design_cost.md")) else "")
open(os.path.join(R, "DESIGN.md"), "w").write("\n".join(out).rstrip() + "\n")
