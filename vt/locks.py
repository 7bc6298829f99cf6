"""which locks are held where: guards are scoped objects, so what is held at a node follows from the blocks around it; what is held
when a function is entered follows from its call sites (intersection for `must`, union for `may`)"""
import re

from vt.engine import rule_async
from vt.prog import Sym

GUARD = re.compile(r"^(const )?(std::(lock_guard|unique_lock|scoped_lock|shared_lock)|eckit::AutoLock)\b")
SYNC = re.compile(r"^std::(for_each|find_if\w*|any_of|all_of|none_of|count_if|remove_if|transform|sort|stable_sort|accumulate|partition\w*|copy_if|call_once|visit|invoke|generate\w*|min_element|max_element|lower_bound|erase_if)$")
TOP = None          # every lock: code that runs while the object is being built


def last(q):
    return q.rsplit("::", 1)[-1]


class Locks:
    def __init__(self, p):
        self.p = p
        self.sym = Sym(p)
        self._g, self._held, self._rec = {}, {}, {}
        self._gl = {}
        for g in p.globals:
            self._gl.setdefault(g["q"], set()).add(g["file"])
        self._sites = None
        self._must = self._may = None

    # --- identity of a mutex or field: (object it belongs to, Class::name)
    def strip(self, f, i):
        while f.n[i][0] in ("cast", "paren", "un", "init") and f.n[i][3] and (f.n[i][0] != "un" or f.n[i][2] in ("*", "&")):
            i = f.n[i][3][0]
        return i

    def gname(self, f, q):
        """globals of the same name may exist in several files"""
        fs = self._gl.get(q, ())
        return q if len(fs) <= 1 else f"{q}@{f.file}"

    def place(self, f, i, depth=0):
        """set of (base, id) an lvalue denotes"""
        i = self.strip(f, i)
        x = f.n[i]
        if x[0] == "mem":
            base = self.sym.r(f, x[3][0]) if x[3] else "this"
            return {(base, x[2][1])}
        if x[0] == "ref":
            if x[2][1] == "global" or "::" in str(x[2][2]) and "@" not in str(x[2][2]):
                return {("", self.gname(f, str(x[2][2])))}
            v = self.p.vardef(f, x[2][2]) if depth < 3 else None
            if v:
                g, d = v if isinstance(v, tuple) else (f, v)
                t = g.n[d][2]["t"]
                if t.rstrip().endswith("&") and g.n[d][3]:
                    return self.place(g, g.n[d][3][0], depth + 1)
            return {("", f"{self.p.family(f)[-1].q}::{x[2][0]}")}
        if x[0] == "call":
            # a function that returns a reference to one of several locks
            out = set()
            o = f.obj(i)
            if o is not None and re.match(r"^std::(unique_ptr|shared_ptr|reference_wrapper)\b.*::(operator\*|get)$|^std::__shared_ptr\w*::(operator\*|get)$", x[2]["q"]):
                return self.place(f, o, depth + 1)      # a mutex kept behind a pointer
            base = self.sym.r(f, o) if o is not None else ""
            for t in self.p.targets(x[2]):
                for j, y in enumerate(t.n):
                    if y[0] == "return" and y[3]:
                        for b, m in self.place(t, y[3][0], depth + 1) if depth < 3 else ():
                            out.add((base if b == "this" else b, m))
            return out or {("", self.sym.r(f, i))}
        if x[0] == "cond":
            return self.place(f, x[3][1], depth + 1) | self.place(f, x[3][2], depth + 1)
        return {("", self.sym.r(f, i))}

    def guards(self, f):
        """[(var node, [set of places per mutex])] in order"""
        if f.id not in self._g:
            out = []
            for d, v in f.vars.items():
                t = f.n[v][2]["t"]
                if GUARD.match(t) and f.n[v][3]:
                    k = f.n[v][3][0]
                    while f.n[k][0] in ("cast", "exprwithcleanups"):
                        k = f.n[k][3][0]
                    args = f.args(k) if f.n[k][0] in ("new", "call") else [k]
                    args = [a for a in args if "std::adopt_lock" not in self.sym.r(f, a) and "defer_lock" not in self.sym.r(f, a)]
                    out.append((v, [self.place(f, a) for a in args], "recursive" in t))
            self._g[f.id] = out
        return self._g[f.id]

    def covers(self, f, v, i):
        """is the guard v in force at node i of the same function?"""
        a = list(f.ancestors(v))
        decl = v
        for b in a:
            if f.n[b][0] == "block":
                break
            decl = b
        else:
            return False
        up = [i, *f.ancestors(i)]
        if b not in up:
            return False
        k = up.index(b)
        child = up[k - 1] if k else i
        ch = f.n[b][3]
        if child not in ch or decl not in ch:
            return False
        return ch.index(child) > ch.index(decl)

    def local(self, f, i):
        """places held at node i by guards of f alone"""
        out = set()
        for v, ms, rec in self.guards(f):
            if self.covers(f, v, i):
                for m in ms:
                    if len(m) == 1:
                        out |= m
                    else:
                        out |= {(b, "|".join(sorted(x for _, x in m))) for b, _ in m}
        return out

    # --- call sites
    def sites(self):
        if self._sites is None:
            s = {}
            for f in self.p.fns.values():
                for i, x in enumerate(f.n):
                    if x[0] in ("call", "new"):
                        for t in self.p.targets(x[2]):
                            s.setdefault(t.id, []).append((f, i))
            self._sites = s
        return self._sites

    def lambda_site(self, f):
        """(parent, node, runs synchronously) of a lambda"""
        if not f.parent_fn or f.parent_fn not in self.p.fns:
            return None
        g = self.p.fns[f.parent_fn]
        for i, x in enumerate(g.n):
            if x[0] == "lambda" and (x[2]["f"] == f.id or f.id in x[2].get("inst", ())):
                for a in g.ancestors(i):
                    y = g.n[a]
                    if y[0] == "call":
                        return (g, i, bool(SYNC.match(y[2]["q"])) or self.strip_is(g, y, i))
                    if y[0] in ("var", "assign", "return", "decl", "block", "new"):
                        break
                return (g, i, False)
        return None

    def strip_is(self, g, y, i):
        return y[2]["q"].endswith("operator()") and y[3] and i in set(g.walk(y[3][0]))

    def through(self, f, i, held):
        """what the callee at node i of f sees of the places held there"""
        if held is TOP:
            return TOP
        o = f.obj(i)
        ot = self.sym.r(f, o) if o is not None else None
        if f.n[i][0] == "call" and o is None and f.n[i][2].get("k") not in ("f", "s"):
            ot = "this"
        out = set()
        for b, m in held:
            if b == "":
                out.add((b, m))
            elif ot is not None and b == ot:
                out.add(("this", m))
            else:
                out.add(("*", m))
        return out

    def building(self, f):
        return last(f.q) in ("<ctor>", "<dtor>") and not f.parent_fn

    def kin(self, f, g):
        return bool(f.cls and g.cls) and (f.cls == g.cls or f.cls in self.p.superclasses(g.cls) or g.cls in self.p.superclasses(f.cls))

    def must(self, own=True):
        """{function: places certainly held when it is entered}. With `own`, calls made while the object itself is being built or
        destroyed do not count (no other thread has it), and a function that is called in no other way gets TOP"""
        if self._must is None:
            self._must = {}
        if own in self._must:
            return self._must[own]
        m = {f.id: TOP for f in self.p.fns.values()}
        sites = self.sites()
        lam = {f.id: self.lambda_site(f) for f in self.p.fns.values() if f.kind == "lambda" or f.parent_fn}
        again, settled = True, False
        while again or not settled:
            if not again:
                settled = True      # what is left at TOP runs while some object is being built: other objects are not covered by that
            again = False
            for f in self.p.fns.values():
                v = TOP
                ls = lam.get(f.id)
                ss = sites.get(f.id, [])
                each = []
                if ls:
                    each.append(self._at(ls[0], ls[1], m) if ls[2] else set())
                else:
                    for g, i in ss:
                        if own and self.building(g) and self.kin(f, g):
                            continue
                        o = self.through(g, i, self._at(g, i, m))
                        each.append(set() if settled and o is TOP and not self.kin(f, self.p.family(g)[-1]) else o)
                    if not ss:
                        each.append(set())
                for o in each:
                    if o is not TOP:
                        v = set(o) if v is TOP else v & o
                if v != m[f.id]:
                    m[f.id] = v
                    again = True
        self._must[own] = m
        return m

    def _at(self, f, i, m):
        e = m[f.id]
        return TOP if e is TOP else e | self.local(f, i)

    def held(self, f, i, own=True):
        """places certainly held at node i (TOP: the object is being built)"""
        return self._at(f, i, self.must(own))

    def may(self):
        """{function: {place: (caller, node)}} held by some caller when the function is entered"""
        if self._may is None:
            m = {f.id: {} for f in self.p.fns.values()}
            work = list(self.p.fns.values())
            lam = {}
            for f in self.p.fns.values():
                ls = self.lambda_site(f) if f.parent_fn else None
                if ls and ls[2]:
                    lam.setdefault(ls[0].id, []).append((f, ls[1]))
            while work:
                f = work.pop()
                out = [(t, i) for i, x in enumerate(f.n) if x[0] in ("call", "new") for t in self.p.targets(x[2])] + lam.get(f.id, [])
                for t, i in out:
                    h = set(m[f.id]) | self.local(f, i)
                    if not h:
                        continue
                    new = False
                    for q in self.through(f, i, h) if f.n[i][0] != "lambda" else h:
                        if q not in m[t.id]:
                            m[t.id][q] = (f.id, i)
                            new = True
                    if new:
                        work.append(t)
            self._may = m
        return self._may

    def chain(self, f, place, n=6):
        """call chain on which the place is held when f is entered"""
        out, m = [], self.may()
        k = place
        while n and f is not None:
            s = m[f.id].get(k)
            if s is None:
                break
            g = self.p.fns[s[0]]
            out.append(f"{g.loc(s[1])} {last(self.p.family(g)[-1].q)}")
            k = next((q for q in m[g.id] if q[1] == place[1] and (q in m[g.id])), None) if not any(q[1] == place[1] for q in self.local(g, s[1])) else None
            f, n = g, n - 1
            if k is None:
                break
        return out
