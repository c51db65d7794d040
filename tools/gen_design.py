#!/usr/bin/env python3
"""fills tools/DESIGN.in.md with the harness list, findings and planted bugs, writes DESIGN.md"""
import json, os, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(R + "/properties.jsonl")]
h = []
for p in props:
    i = p["id"]
    h.append("### %s %s\n" % (i, p["title"]))
    src = open(R + "/harness/src/%s.rs" % i.lower()).read()
    for m in re.finditer(r"((?:^///[^\n]*\n)*)^fn (%s_\w+)\(\) \{" % i.lower(), src, re.M):
        h.append("* `%s`: %s" % (m.group(2), " ".join(l[3:].strip() for l in m.group(1).splitlines())))
    h.append("")
f = []
for l in open(R + "/known_findings.txt"):
    if l.startswith(("fixed:", "known:")):
        f.append("* " + l.strip())
caught = {}
c = R + "/tools/caught.txt"
if os.path.exists(c):
    for l in open(c):
        k, v = l.rstrip("\n").split("\t")
        caught[k] = v
s = ["| bug | breaks | needs | caught by |", "|---|---|---|---|"]
for d in sorted(os.listdir(R + "/seeded")):
    m = json.load(open(R + "/seeded/%s/meta.json" % d))
    s.append("| %s | %s: %s | %s | %s |" % (d, m["property"], m["what_it_breaks"].replace("|", "/"), m["needs"].replace("|", "/"), caught.get(d, "not run")))
t = open(R + "/tools/DESIGN.in.md").read()
for k, v in (("HARNESSES", h), ("FINDINGS", f), ("SEEDED", s)):
    t = t.replace("\n" + k + "\n", "\n" + "\n".join(v).strip() + "\n")
open(R + "/DESIGN.md", "w").write(t)
