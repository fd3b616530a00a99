#!/usr/bin/env python3
"""Regenerate DESIGN.md from tools/design.md, properties.jsonl, harness/props.json, known_findings.txt, tools/caught.txt and seeded/."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = json.load(open(V + "/harness/props.json"))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
D = open(V + "/tools/design.md").read()
sec = {}
for m in re.finditer(r"^@(C\d\d)\n(.*?)(?=^@C|^@END)", D, re.S | re.M): sec[m.group(1)] = m.group(2).strip()
fixed = {}
for l in open(V + "/known_findings.txt"):
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", l)
    if m: fixed.setdefault(m.group(1), []).append((m.group(2), m.group(3)))
out = []
for p in props:
    i = p["id"]; out.append(f"### {i} {p['title']}\n")
    if i in P:
        src = open(f"{V}/harness/{P[i]['source']}").read(); m = re.search(r'vf_rule = "((?:[^"\\]|\\.)*)"', src)
        out.append(f"*Cases (`harness/{P[i]['source']}`, quick {P[i]['quick']}, thorough {P[i]['thorough']}).* {m.group(1) if m else ''}\n")
    if i in sec: out.append(sec[i] + "\n")
    if i in fixed: out.append("*Defects found and repaired:* " + "; ".join(f"{b} ({a[:7]})" for a, b in fixed[i]) + ".\n")
caught = {}
try:
    for l in open(V + "/tools/caught.txt"):
        l = l.strip()
        if l and not l.startswith("#"): a, b = l.split("|", 1); caught[a] = b
except OSError: pass
t = ["| change | property | needs | caught by |", "|---|---|---|---|"]
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(f"{V}/seeded/{d}/meta.json")); c = lambda s: str(s).replace("|", "\\|").replace("\n", " ")
    t.append(f"| {d} | {m['property']} | {c(m['needs'])} | {caught.get(d, m['property'])} |")
D = re.sub(r"^@C\d\d\n.*?^@END\n", lambda m: "\n".join(out), D, flags=re.S | re.M)
D = D.replace("@SEEDED", "\n".join(t))
open(V + "/DESIGN.md", "w").write(D)
