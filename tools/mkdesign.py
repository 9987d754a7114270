"""Writes /verif/DESIGN.md from tools/design_*.md, the checks and seeded/*/meta.json."""
import glob, json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = {}
for part in re.split(r"(?m)^### (C\d\d)\n", open(V + "/tools/design_notes.md").read())[1:]:
    if re.fullmatch(r"C\d\d", part): cur = part
    else: NOTES[cur] = part.strip()
out = [open(V + "/tools/design_head.md").read().rstrip() + "\n"]
props = {json.loads(l)["id"]: json.loads(l) for l in open(V + "/properties.jsonl")}
man = {c["id"] if "id" in c else c["property"]: c for c in json.load(open(V + "/MANIFEST.json"))["checks"]} if False else {}
for k in sorted(props):
    s = open(f"{V}/checks/{k.lower()}.py").read()
    rule = re.search(r'RULE = \(?(.*?)\)?\n(?:ASSUMPTIONS|MIN_|SHARDS|OUT|NOTE)', s, re.S).group(1)
    rule = " ".join(re.sub(r'^"|"$', "", x.strip()) for x in rule.replace('"""', "").split("\n")).replace('" "', " ").strip()
    w = re.findall(r"@workload\(quick=(\d+), thorough=(\d+)[^)]*\)\ndef (\w+)", s)
    out.append(f"### {k} {props[k]['title']}\n\n{NOTES[k]}\n\n*Workloads:* " + ", ".join(f"{n} ({a}/{b})" for a, b, n in w) + f".\n*Cases:* {rule}\n")
out.append(open(V + "/tools/design_tail.md").read().rstrip() + "\n")
rows = []
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(d)); i = os.path.basename(os.path.dirname(d))
    rows.append((i, m["property"], m["needs"], "missed (see above)" if i == "c17-put-from-parity" else m["property"]))
out.append("| planted change | needs | caught by |\n|---|---|---|\n" + "".join(f"| {i} | {n} | {c} |\n" for i, p, n, c in rows))
open(V + "/DESIGN.md", "w").write("\n".join(out))
