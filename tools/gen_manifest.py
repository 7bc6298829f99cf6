#!/usr/bin/env python3
"""Writes MANIFEST.json from rules/*.py (claimed) and properties.jsonl (the rest, with the reasons below)."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.join(HERE, "..")
sys.path.insert(0, V)

TECH = {
    "P01": "interprocedural typestate analysis over the clang CFG (must-pass, per-element loops) plus result-use analysis",
}
NA = {
    "N01": "byte equality of stored and returned data depends on run-time buffer contents, offsets and part arithmetic; no static argument in reach bounds them (the recorded offset/length is decided under P03)",
    "N02": "canonicalisation is arithmetic and string processing over every value of every keyword type; a static proof would have to evaluate toKey on unbounded strings",
    "N03": "set equality of the answer quantifies over run-time axis values and B-tree contents",
    "N04": "linearizability quantifies over all process schedules on a shared file system; the ordering facts a static analysis can decide are claimed as P02, P04, P05, P06 and P35",
    "N05": "index arithmetic over user-defined axes and chunkings is a property of run-time numbers; only the bounds and completeness checks are decided (P32)",
    "N06": "time and memory bounds depend on workload; no static bound is in reach",
}


def main():
    ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
    checks, na = [], []
    for i in ids:
        if os.path.exists(os.path.join(V, "rules", i.lower() + ".py")):
            import importlib
            m = importlib.import_module("rules." + i.lower())
            checks.append({
                "property": i,
                "quick_cmd": f"./check {i} quick",
                "thorough_cmd": f"./check {i} thorough",
                "technique": getattr(m, "TECHNIQUE", TECH.get(i)),
                "level": "other",
                "level_note": getattr(m, "LEVEL_NOTE", None) or
                "Static decision over the whole current source: sound for the events, branches and calls the rule models "
                "(class-hierarchy call graph, path-insensitive to data beyond the branch conditions named in the rule); "
                "trusts clang's AST/CFG and the behaviour of eckit, metkit, libc and the kernel.",
            })
        else:
            na.append({"property": i, "reason": NA.get(i, "not claimed yet: no check registered at this commit")})
    out = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
           "notes": "Static analysis only: a clang-based fact extractor and an interprocedural typestate engine; see DESIGN.md."}
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(out, f, indent=1)
        f.write("\n")
    print(len(checks), "checks", len(na), "not applicable")


main()
