#!/usr/bin/env python3
"""Writes DESIGN.md: tools/design.md (the prose) with the sections per property filled in from properties.jsonl, the rules'
own descriptions, known_findings.json and the seeded bugs' records, so that the document stays in step with the machinery."""
import ast
import glob
import json
import os
import re

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def rule(pid):
    path = f"{ROOT}/rules/{pid.lower()}.py"
    if not os.path.exists(path):
        return None
    t = ast.parse(open(path).read())
    out = {"doc": ast.get_docstring(t) or "", "TECHNIQUE": "", "ASSUMPTIONS": [], "LIMITS": []}
    for n in t.body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") in ("TECHNIQUE", "ASSUMPTIONS", "LIMITS"):
            out[n.targets[0].id] = ast.literal_eval(n.value)
    out["checks"] = sorted({m.group(1) for m in re.finditer(r"ctx\.ob\(\s*[\"']([\w-]+)[\"']", open(path).read())})
    return out


def main():
    props = [json.loads(l) for l in open(f"{ROOT}/properties.jsonl")]
    man = json.load(open(f"{ROOT}/MANIFEST.json"))
    found = json.load(open(f"{ROOT}/known_findings.json"))["findings"]
    na = {x["property"]: x["reason"] for x in man.get("not_applicable", [])}
    notes = json.load(open(f"{ROOT}/tools/design_notes.json"))
    seeds = {}
    for f in sorted(glob.glob(f"{ROOT}/seeded/*/meta.json")):
        m = json.load(open(f))
        seeds.setdefault(m["property"], []).append((f.split("/")[-2], m))
    per = []
    for p in props:
        i = p["id"]
        if i in na:
            continue
        r = rule(i)
        doc = " ".join(r["doc"].split())
        per.append(f"### {i} — {p['title']}\n")
        per.append(f"**Decided by** {r['TECHNIQUE'] or 'see below'}.\n")
        per.append(doc + "\n")
        if notes.get(i, {}).get("how"):
            per.append(notes[i]["how"] + "\n")
        if r["ASSUMPTIONS"]:
            per.append("Assumptions: " + "; ".join(r["ASSUMPTIONS"]) + ".\n")
        if notes.get(i, {}).get("limits"):
            per.append("Left out, and why: " + notes[i]["limits"] + "\n")
        per.append(f"Beyond the tests: {p['why_tests_cant']} The rule quantifies over {p['quantifier']['text']}.\n")
        for f in found:
            if f["property"] == i and f["status"] == "open":
                per.append(f"Known finding (`{f['rule']}`, {f['instance']}): {f['what']}\n")
        fx = [f for f in found if f["property"] == i and f["status"] == "fixed"]
        if fx:
            per.append("Defects found and repaired: " + ", ".join(f["commit"] for f in fx) + " (see the table).\n")
        for s, m in seeds.get(i, []):
            per.append(f"Planted: `seeded/{s}` — {m['what_it_breaks']} (manifests with: {m['needs']}); caught by this check.\n")
    nas = "\n".join(f"* **{k}** {next(p['title'] for p in props if p['id'] == k)}: {v}." for k, v in na.items())
    fixes = "\n".join(f"| {f['property']} | {f['commit']} | {f['entry'].split(f['commit'])[1].strip().replace('|', '/')} |" for f in found if f["status"] == "fixed")
    s = open(f"{ROOT}/tools/design.md").read()
    s = s.replace("@@PROPERTIES@@", "\n".join(per)).replace("@@NA@@", nas).replace("@@FIXES@@", "| property | commit | what failed |\n|---|---|---|\n" + fixes)
    open(f"{ROOT}/DESIGN.md", "w").write(s)


main()
