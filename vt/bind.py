"""Reads what is not part of the compiled program: the Python binding sources (C++ with pybind11), the Python package and the
Rust bridge declarations. Everything is read from the tree on every run; comments are removed before anything is interpreted."""
import ast
import os
import re


def root():
    return os.environ.get("VT_REPO", "/repo")


def text(path):
    with open(os.path.join(root(), path), encoding="utf-8") as h:
        return h.read()


def strip(s):
    """C++/Rust source without comments; string literals are kept"""
    out = []
    for m in re.finditer(r'R"\((.*?)\)"|"(?:\\.|[^"\\\n])*"|\'(?:\\.|[^\'\\\n])\'|//[^\n]*|/\*.*?\*/|.', s, re.S):
        t = m.group(0)
        if t.startswith("//"):
            continue
        if t.startswith("/*"):
            out.append("\n" * t.count("\n"))
            continue
        out.append(t)
    return "".join(out)


def match(s, i):
    """index after the bracket that closes the one at s[i]"""
    pairs = {"(": ")", "{": "}", "[": "]"}
    st = []
    k = i
    while k < len(s):
        m = re.compile(r'R"\((.*?)\)"|"(?:\\.|[^"\\\n])*"|\'(?:\\.|[^\'\\\n])\'', re.S).match(s, k)
        if m:
            k = m.end()
            continue
        c = s[k]
        if c in pairs:
            st.append(pairs[c])
        elif st and c == st[-1]:
            st.pop()
            if not st:
                return k + 1
        k += 1
    return len(s)


def split(s):
    """top-level comma separated pieces"""
    out, k, b = [], 0, 0
    while k < len(s):
        m = re.compile(r'R"\((.*?)\)"|"(?:\\.|[^"\\\n])*"|\'(?:\\.|[^\'\\\n])\'', re.S).match(s, k)
        if m:
            k = m.end()
            continue
        if s[k] in "({[":
            k = match(s, k)
            continue
        if s[k] == ",":
            out.append(s[b:k].strip())
            b = k + 1
        k += 1
    out.append(s[b:].strip())
    return [x for x in out if x]


def line(s, k):
    return s.count("\n", 0, k) + 1


def chains(path, kind):
    """[(C++ type, Python name, [(method, [args], line)], line)] of pybind declarations py::<kind><T...>(m, "Name", ...).def(...)..."""
    s = strip(text(path))
    out = []
    for m in re.finditer(rf"\bpy::{kind}<", s):
        k, d = m.end(), 1
        while d:
            d += {"<": 1, ">": -1}.get(s[k], 0)
            k += 1
        ty = split(s[m.end():k - 1])[0]
        k2 = s.index("(", k)
        e = match(s, k2)
        a = split(s[k2 + 1:e - 1])
        name = a[1].strip('"') if len(a) > 1 else ""
        calls = []
        k = e
        while True:
            mm = re.compile(r"\s*\.\s*(\w+)\s*(?=[(<])").match(s, k)
            if not mm:
                # declarations continued later on a named variable are followed by name
                break
            j = mm.end()
            if s[j] == "<":
                d = 1
                j += 1
                while d:
                    d += {"<": 1, ">": -1}.get(s[j], 0)
                    j += 1
            ee = match(s, j)
            calls.append((mm.group(1), split(s[j + 1:ee - 1]), line(s, mm.start(1))))
            k = ee
        out.append((ty, name, calls, line(s, m.start())))
    return out


def pyclasses(path):
    """class name -> ast node"""
    t = ast.parse(text(path))
    return {n.name: n for n in ast.walk(t) if isinstance(n, ast.ClassDef)}


def pyenum(node):
    """members of an IntEnum / IntFlag class: name -> value (as Python would number them)"""
    flag = any("Flag" in ast.unparse(b) for b in node.bases)
    out, last = {}, 0
    for s in node.body:
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
            v = s.value
            if isinstance(v, ast.Call) and ast.unparse(v.func).split(".")[-1] == "auto":
                n = max(list(out.values()) + [0])
                val = (1 << n.bit_length()) if flag else last + 1
            else:
                try:
                    val = eval(compile(ast.Expression(v), "", "eval"), {"__builtins__": {}}, dict(out))
                except Exception:
                    continue
            out[s.targets[0].id] = last = val
    return out


def rustenums(path):
    """enum name -> {member: value} of the enumerations with explicit values"""
    s = strip(text(path))
    out = {}
    for m in re.finditer(r"\benum\s+(\w+)\s*\{", s):
        e = match(s, m.end() - 1)
        d, last = {}, -1
        for it in split(s[m.end():e - 1]):
            it = re.sub(r"#\[[^\]]*\]", "", it).strip()
            mm = re.match(r"(\w+)\s*(?:=\s*([^,]+))?$", it)
            if mm:
                last = int(eval(mm.group(2), {"__builtins__": {}})) if mm.group(2) else last + 1
                d[mm.group(1)] = last
        out[m.group(1)] = (d, line(s, m.start()))
    return out
