"""record layouts as the compiler lays them out: {record: (size, [(offset, name)])} of the leaf fields"""
import os
import re
import subprocess
import tempfile

from vt import facts
from vt.facts import Broken


def layouts(headers, records, like):
    cmds = facts.configure()
    if like not in cmds:
        raise Broken(f"{like} is no longer compiled")
    src = "".join(f'#include "{h}"\n' for h in headers)
    src += "static const unsigned long vt_sizes[] = {" + ", ".join(f"sizeof({r})" for r in records) + "};\n"
    with tempfile.TemporaryDirectory(prefix="vtlayout") as d:
        f = d + "/w.cc"
        with open(f, "w") as o:
            o.write(src)
        r = subprocess.run(["clang++", *cmds[like][:-1], "-fno-access-control", "-fsyntax-only", "-Xclang", "-fdump-record-layouts", f],
                           cwd=facts.CM, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if r.returncode != 0:
        raise Broken("the layout of the records could not be determined:\n" + r.stderr[-2000:])
    out = {}
    for block in r.stdout.split("*** Dumping AST Record Layout")[1:]:
        lines = [x for x in block.strip("\n").split("\n") if "|" in x]
        if not lines:
            continue
        m = re.match(r"\s*\d+ \| (?:struct|class|union) (.+?)(?: \(empty\))?$", lines[0])
        if not m:
            continue
        rec = m.group(1)
        rows, size = [], None
        for x in lines[1:]:
            s = re.search(r"\[sizeof=(\d+)", x)
            if s:
                size = int(s.group(1))
                break
            y = re.match(r"\s*(\d+)(?::\S+)? \|( +)(.*)$", x)
            if y:
                rows.append((int(y.group(1)), len(y.group(2)), y.group(3)))
        leaf = []
        for k, (off, ind, txt) in enumerate(rows):
            if k + 1 < len(rows) and rows[k + 1][1] > ind:
                continue
            if "vtable pointer" in txt:
                leaf.append((off, "(vtable)"))
            elif "(base)" in txt:
                continue
            else:
                leaf.append((off, txt.split()[-1]))
        out.setdefault(rec, (size, leaf))
    return out
