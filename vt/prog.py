"""The resolved program: functions with AST nodes and CFG, classes, overrides, symbolic access paths."""
import re
from collections import defaultdict

from . import facts

NORETURN = {"eckit::Assert", "eckit::handle_assert", "abort", "exit", "_exit", "std::terminate", "__assert_fail",
            "std::rethrow_exception", "std::abort", "std::exit", "eckit::ThrowException", "eckit::handle_panic"}

PASS1 = {"std::move", "std::forward", "std::ref", "std::cref", "std::as_const", "std::addressof"}

# take their argument by mutable reference without assigning it
NODEF = {"std::move", "std::forward", "std::ref", "std::get", "std::addressof", "std::begin", "std::end", "std::cbegin"}

WORD = re.compile(r"[A-Za-z_]\w*")


class Fn:
    __slots__ = ("p", "d", "id", "q", "name", "kind", "file", "line", "cls", "n", "cfg", "params", "body", "_parent",
                 "_vars", "_defs", "_blocks", "_elempos", "noexcept", "parent_fn", "inits", "_loops", "_preds", "ret",
                 "_uses", "_trymap")

    def __init__(self, p, d):
        self.p = p
        self.d = d
        self.id = d["id"]
        self.q = d["q"]
        self.name = d["name"]
        self.kind = d["kind"]
        self.file = d["file"]
        self.line = d["line"]
        self.cls = d.get("cls", "")
        self.n = d["n"]
        self.cfg = d["cfg"]
        self.params = d["params"]
        self.body = d["body"]
        self.noexcept = d["noexcept"]
        self.inits = d["inits"]
        self.parent_fn = d.get("parent")
        self.ret = d["ret"]
        self._parent = self._vars = self._defs = self._blocks = self._elempos = self._loops = self._preds = None
        self._uses = self._trymap = None

    # --- nodes
    def kindof(self, i):
        return self.n[i][0]

    def info(self, i):
        return self.n[i][2]

    def ch(self, i):
        return self.n[i][3]

    def ln(self, i):
        return self.n[i][1]

    def loc(self, i=None):
        return f"src/{self.file}:{self.n[i][1] if i is not None and self.n[i][1] else self.line}"

    @property
    def parent(self):
        if self._parent is None:
            pm = {}
            for i, x in enumerate(self.n):
                for c in x[3]:
                    pm.setdefault(c, i)
            self._parent = pm
        return self._parent

    def ancestors(self, i):
        pm = self.parent
        while i in pm:
            i = pm[i]
            yield i

    def walk(self, i=None):
        if i is None:
            i = self.body
        st = [i]
        while st:
            j = st.pop()
            if j < 0:
                continue
            yield j
            st.extend(reversed(self.n[j][3]))

    def calls(self, i=None):
        """(node, info) of resolved calls below node i (whole function incl. initialisers when i is None)."""
        if i is None:
            for j, x in enumerate(self.n):
                if x[0] in ("call", "new"):
                    yield j, x[2]
        else:
            for j in self.walk(i):
                if self.n[j][0] in ("call", "new"):
                    yield j, self.n[j][2]

    def args(self, i):
        """argument nodes of a call (without the object)"""
        x = self.n[i]
        if x[0] == "call" and x[2]["o"]:
            return x[3][1:]
        if x[0] == "icall":
            return x[3][1:]
        return x[3]

    def obj(self, i):
        x = self.n[i]
        if x[0] == "call" and x[2]["o"]:
            return x[3][0]
        return None

    # --- variables
    @property
    def vars(self):
        if self._vars is None:
            v = {}
            for i, x in enumerate(self.n):
                if x[0] == "var":
                    v[x[2]["d"]] = i
            self._vars = v
        return self._vars

    @property
    def defs(self):
        """declid -> number of assignments / address-taking / non-const uses beyond the initialiser"""
        if self._defs is None:
            d = defaultdict(int)
            for i, x in enumerate(self.n):
                if x[0] == "assign":
                    t = x[3][0]
                    if self.n[t][0] == "ref":
                        d[self.n[t][2][2]] += 1
                elif x[0] == "un" and x[2] in ("++", "--", "p++", "p--"):
                    t = x[3][0]
                    if self.n[t][0] == "ref":
                        d[self.n[t][2][2]] += 1
                elif x[0] == "un" and x[2] == "&":
                    t = x[3][0]
                    if self.n[t][0] == "ref" and self.n[t][2][1] in ("local", "param"):
                        d[self.n[t][2][2]] += 1
                elif x[0] == "call" and x[2]["k"] == "op" and x[2]["o"] and x[2]["q"].rsplit("::", 1)[-1] in (
                        "operator=", "operator+=", "operator-=", "operator++", "operator--", "operator|=", "operator&="):
                    t = x[3][0] if x[3] else None
                    if t is not None and self.n[t][0] == "ref":
                        d[self.n[t][2][2]] += 1
                if x[0] in ("call", "new") and x[2].get("mp") and x[2]["q"] not in NODEF:
                    off = 1 if x[0] == "call" and x[2]["o"] else 0
                    for m in x[2]["mp"]:
                        if m + off < len(x[3]):
                            t = x[3][m + off]
                            if self.n[t][0] == "ref" and self.n[t][2][1] in ("local", "param"):
                                d[self.n[t][2][2]] += 1
            self._defs = d
        return self._defs

    # --- cfg
    @property
    def blocks(self):
        """block id -> (elements, succs, terminator, label, noreturn)"""
        if self._blocks is None:
            b = {}
            if self.cfg:
                for bid, el, su, te, la, nr in self.cfg["b"]:
                    out = []
                    last = object()
                    for e in el:
                        if e != last:
                            out.append(e)
                        last = e
                    b[bid] = (out, su, te, la, nr)
            self._blocks = b
        return self._blocks

    @property
    def preds(self):
        if self._preds is None:
            p = defaultdict(list)
            for b, (el, su, te, la, nr) in self.blocks.items():
                for s in su:
                    if s >= 0:
                        p[s].append(b)
            self._preds = p
        return self._preds

    @property
    def loops(self):
        """list of (header, set(blocks)) natural loops, from back edges found by DFS over reachable blocks"""
        if self._loops is None:
            res = {}
            bl = self.blocks
            if not bl:
                self._loops = []
                return self._loops
            entry = self.cfg["entry"]
            color = {}
            st = [(entry, iter(bl[entry][1]))]
            color[entry] = 1
            back = []
            while st:
                b, it = st[-1]
                adv = False
                for s in it:
                    if s < 0:
                        continue
                    if color.get(s) is None:
                        color[s] = 1
                        st.append((s, iter(bl[s][1])))
                        adv = True
                        break
                    if color[s] == 1:
                        back.append((b, s))
                if not adv:
                    color[b] = 2
                    st.pop()
            for src, h in back:
                body = res.setdefault(h, {h})
                w = [src]
                while w:
                    x = w.pop()
                    if x in body:
                        continue
                    body.add(x)
                    w.extend(self.preds[x])
            self._loops = sorted(((h, frozenset(b)) for h, b in res.items()), key=lambda t: len(t[1]))
        return self._loops

    def enclosing_tries(self, i):
        """innermost-first list of try nodes whose try-block contains node i"""
        if self._trymap is None:
            self._trymap = {}
        if i in self._trymap:
            return self._trymap[i]
        out = []
        c = i
        for a in self.ancestors(i):
            if self.n[a][0] == "try" and self.n[a][3] and self.n[a][3][0] == c:
                out.append(a)
            c = a
        self._trymap[i] = out
        return out

    def __repr__(self):
        return f"<{self.id}>"


class Program:
    def __init__(self, data=None):
        self.data = data if data is not None else facts.load()
        self.fns = {k: Fn(self, d) for k, d in self.data["functions"].items()}
        self.decls = self.data["decls"]
        self.classes = self.data["classes"]
        self.enums = self.data["enums"]
        self.globals = self.data["globals"]
        self.byq = defaultdict(list)
        for f in self.fns.values():
            self.byq[f.q].append(f)
        self.derived = defaultdict(set)
        for c in self.classes.values():
            for b in c["bases"]:
                self.derived[b].add(c["id"])
        self.over = defaultdict(set)
        for src in (self.data["functions"], self.decls):
            for k, d in src.items():
                for o in d.get("ov", ()):
                    self.over[o].add(k)
        self._allover = {}
        self._tgt = {}
        self._getter = {}
        self._vartab = None
        self._lnames = {}
        self._callers = None
        self._callees = {}

    # --- lookup
    def find(self, q, required=True):
        """functions by qualified name (all overloads / instantiations)"""
        r = self.byq.get(q, [])
        if required and not r:
            raise facts.Broken(f"anchor vanished: no definition of {q}")
        return r

    def one(self, q):
        r = self.find(q)
        if len(r) != 1:
            raise facts.Broken(f"anchor ambiguous: {len(r)} definitions of {q}")
        return r[0]

    def cls(self, q):
        c = self.classes.get(q)
        if c is None:
            raise facts.Broken(f"anchor vanished: no class {q}")
        return c

    def subclasses(self, c, strict=False):
        out, w = set(), [c]
        while w:
            x = w.pop()
            for d in self.derived.get(x, ()):
                if d not in out:
                    out.add(d)
                    w.append(d)
        if not strict:
            out.add(c)
        return out

    def superclasses(self, c):
        out, w = set(), [c]
        while w:
            x = w.pop()
            if x in out:
                continue
            out.add(x)
            w.extend(self.classes.get(x, {}).get("bases", ()))
        return out

    def overriders(self, fid):
        """fid and everything that overrides it, transitively (definitions and declarations)"""
        if fid not in self._allover:
            out, w = {fid}, [fid]
            while w:
                x = w.pop()
                for o in self.over.get(x, ()):
                    if o not in out:
                        out.add(o)
                        w.append(o)
            self._allover[fid] = out
        return self._allover[fid]

    def targets(self, info, bound=None):
        """defined functions a call may reach (CHA)"""
        fid = info["id"]
        if info.get("v"):
            k = (fid, bound or info.get("rc"))
            if k not in self._tgt:
                fs = [self.fns[o] for o in sorted(self.overriders(fid)) if o in self.fns]
                if k[1] and k[1] in self.classes:
                    # only what an object of the declared class, or of one derived from it, can execute
                    fit = set()
                    for d in self.subclasses(k[1]):
                        fit |= self.superclasses(d)
                    fs = [f for f in fs if f.cls in fit]
                self._tgt[k] = fs
            return self._tgt[k]
        f = self.fns.get(fid)
        return [f] if f else []

    def methods_named(self, base, name):
        """definitions of virtual method `name` in base and its subclasses"""
        out = []
        for c in sorted(self.subclasses(base)):
            out += [f for f in self.fns.values() if f.cls == c and f.name == name]
        return out

    @property
    def method_index(self):
        if not hasattr(self, "_mi"):
            mi = defaultdict(list)
            for f in self.fns.values():
                if f.cls:
                    mi[(f.cls, f.name)].append(f)
            self._mi = mi
        return self._mi

    def enum(self, q):
        for e in self.enums:
            if e["q"] == q:
                return e
        raise facts.Broken(f"anchor vanished: no enumeration {q}")

    # --- variables shared between a function and its lambdas
    def lname(self, fn, did, name):
        """the name of a local, made unique within its function when several locals share it"""
        vd = self.vardef(fn, did)
        if not vd:
            return name
        g = vd[0]
        m = self._lnames.get(g.id)
        if m is None:
            m, seen = {}, {}
            for x in g.n:
                if x[0] == "var":
                    k = seen[x[2]["n"]] = seen.get(x[2]["n"], 0) + 1
                    m[x[2]["d"]] = x[2]["n"] if k == 1 else f"{x[2]['n']}__{k}"
            self._lnames[g.id] = m
        return m.get(did, name)

    def vardef(self, fn, declid):
        if self._vartab is None:
            t = {}
            for f in self.fns.values():
                for d, i in f.vars.items():
                    t.setdefault((f.file, d), (f, i))
            self._vartab = t
        i = fn.vars.get(declid)
        if i is not None:
            return fn, i
        return self._vartab.get((fn.file, declid))

    def bindinit(self, fn, declid):
        """(fn, var node, index) for a structured binding"""
        for f in self.family(fn):
            for i, x in enumerate(f.n):
                if x[0] == "var" and declid in x[2].get("b", ()):
                    return f, i, x[2]["b"].index(declid)
        return None

    def family(self, fn):
        """fn and its lexical parents"""
        out = [fn]
        while fn.parent_fn and fn.parent_fn in self.fns:
            fn = self.fns[fn.parent_fn]
            out.append(fn)
        return out

    def lambdas_of(self, fn):
        out = []
        for f in self.fns.values():
            if f.parent_fn == fn.id:
                out.append(f)
        return out

    def single_def(self, fn, declid):
        """True if the local is defined only by its initialiser, in its function and the lambdas inside"""
        root = self.family(fn)[-1]
        key = (root.id, declid)
        c = getattr(self, "_sd", None)
        if c is None:
            c = self._sd = {}
        if key not in c:
            tot = 0
            w = [root]
            while w:
                f = w.pop()
                tot += f.defs.get(declid, 0)
                w += self.lambda_children.get(f.id, ())
            c[key] = tot == 0
        return c[key]

    def sole_assign(self, fn, declid):
        """(function, rhs node) when the local receives its value from exactly one plain assignment"""
        root = self.family(fn)[-1]
        c = getattr(self, "_sa", None)
        if c is None:
            c = self._sa = {}
        key = (root.id, declid)
        if key not in c:
            hits, tot, w = [], 0, [root]
            while w:
                f = w.pop()
                n = f.defs.get(declid, 0)
                tot += n
                if n:
                    for x in f.n:
                        if x[0] == "assign" and x[2] == "=" and f.n[x[3][0]][0] == "ref" and f.n[x[3][0]][2][2] == declid:
                            hits.append((f, x[3][1]))
                        elif x[0] == "call" and x[2]["k"] == "op" and re.match(r"^std::(shared_ptr|unique_ptr)::operator=$", x[2]["q"]) and len(x[3]) == 2 \
                                and f.n[x[3][0]][0] == "ref" and f.n[x[3][0]][2][2] == declid:
                            hits.append((f, x[3][1]))
                w += self.lambda_children.get(f.id, ())
            c[key] = hits[0] if tot == 1 and len(hits) == 1 else None
        return c[key]

    def override_in(self, fid, cls):
        """the definition of virtual method fid seen by an object whose dynamic class is cls (None: unknown)"""
        ov = self.overriders(fid)
        byc = {}
        for o in ov:
            d = self.fns.get(o)
            c = d.cls if d is not None else self.decls.get(o, {}).get("cls")
            if c:
                byc[c] = o
        w, seen = [cls], set()
        while w:
            c = w.pop(0)
            if c in seen:
                continue
            seen.add(c)
            if c in byc:
                return byc[c]
            w += self.classes.get(c, {}).get("bases", ())
        return None

    @property
    def lambda_children(self):
        if not hasattr(self, "_lc"):
            lc = defaultdict(list)
            for f in self.fns.values():
                if f.parent_fn:
                    lc[f.parent_fn].append(f)
            self._lc = lc
        return self._lc

    def getter(self, fid):
        """return node of a function whose whole body is `return <expr>`, perhaps after declarations"""
        if fid not in self._getter:
            r = None
            f = self.fns.get(fid)
            if f and f.kind in ("method", "fn"):
                b = f.n[f.body]
                if b[0] == "block" and b[3] and (len(b[3]) == 1 or f.d.get("const") or f.kind == "fn" or f.d.get("static")) and all(f.n[j][0] == "decl" and not any(f.n[v][0] == "var" and f.n[v][2]["static"] for v in f.n[j][3]) for j in b[3][:-1]):
                    z = f.n[b[3][-1]]
                    if z[0] == "return" and z[3]:
                        r = z[3][0]
            self._getter[fid] = r
        return self._getter[fid]

    def predicate(self, fid):
        """is it a small bool function made of declarations, ifs and returns only?"""
        c = self.__dict__.setdefault("_pred", {})
        if fid not in c:
            f = self.fns.get(fid)
            ok = False
            if f and (f.kind in ("fn", "lambda") or f.kind == "method" and (f.d.get("const") or f.d.get("static"))) and f.body is not None and f.d.get("ret", "bool") in ("bool", "const bool") and len(f.n) < 400:
                ok = not any(x[0] in ("for", "while", "do", "forrange", "try", "switch", "assign") for x in f.n) and \
                    any(x[0] == "return" and x[3] for x in f.n)
            c[fid] = ok
        return c[fid]

    # --- call graph
    def callees(self, fn):
        """ids of functions possibly invoked from fn's body (incl. lambdas it creates, destructors of its locals)"""
        if fn.id in self._callees:
            return self._callees[fn.id]
        out = set()
        for i, x in enumerate(fn.n):
            k = x[0]
            if k in ("call", "new"):
                for t in self.targets(x[2]):
                    out.add(t.id)
            elif k == "lambda":
                if x[2]["f"] in self.fns:
                    out.add(x[2]["f"])
                else:
                    # generic lambda: instantiations
                    pre = x[2]["cls"] + "::"
                    for f in self.lambda_children.get(fn.id, ()):
                        if f.id.startswith(pre):
                            out.add(f.id)
            elif k == "ref" and x[2][1] == "func":
                if x[2][2] in self.fns:
                    out.add(x[2][2])
            elif k == "newexpr":
                pass
        for b, (el, su, te, la, nr) in fn.blocks.items():
            for e in el:
                if isinstance(e, list) and e[0] == "~" and e[3] in self.fns:
                    out.add(e[3])
        # smart-pointer construction helpers hide constructors
        for i, x in enumerate(fn.n):
            if x[0] == "call" and x[2]["q"] in ("std::make_unique", "std::make_shared"):
                m = re.match(r"std::make_(?:unique|shared)<([^<>]*(?:<.*?>)?[^,<>]*)", x[2]["id"])
                if m:
                    c = m.group(1).strip()
                    for f in self.method_ctor(c):
                        out.add(f.id)
        self._callees[fn.id] = out
        return out

    def method_ctor(self, c):
        if not hasattr(self, "_ctors"):
            d = defaultdict(list)
            for f in self.fns.values():
                if f.kind == "ctor":
                    d[f.cls].append(f)
            self._ctors = d
        return self._ctors.get(c, [])

    def method_dtor(self, c):
        if not hasattr(self, "_dtors"):
            d = {}
            for f in self.fns.values():
                if f.kind == "dtor":
                    d[f.cls] = f
            self._dtors = d
        return self._dtors.get(c)

    @property
    def callers(self):
        if self._callers is None:
            c = defaultdict(set)
            for f in self.fns.values():
                for t in self.callees(f):
                    c[t].add(f.id)
            self._callers = c
        return self._callers

    def can_reach(self, ids):
        """set of function ids from which some function in ids is reachable"""
        out = set(ids)
        w = list(ids)
        cal = self.callers
        while w:
            x = w.pop()
            for c in cal.get(x, ()):
                if c not in out:
                    out.add(c)
                    w.append(c)
        return out

    def reachable(self, roots, stop=lambda f: False):
        out = {}
        w = []
        for r in roots:
            out[r.id] = None
            w.append(r)
        while w:
            f = w.pop()
            if stop(f):
                continue
            for t in self.callees(f):
                if t not in out:
                    out[t] = f.id
                    w.append(self.fns[t])
        return out

    def callers_direct(self, pred):
        """(fn, node) of every call whose info satisfies pred"""
        for f in self.fns.values():
            for i, x in enumerate(f.n):
                if x[0] in ("call", "new") and pred(x[2]):
                    yield f, i


# -------------------------------------------------------------------------------------------------------------------
# symbolic access paths

SMART = ("operator->", "operator*", "get", "value", "operator bool")


def short(q):
    return q


class Env(dict):
    """a binding of parameters, with the renderings computed under it"""
    __slots__ = ("cache", "key")

    def __init__(self, *a):
        super().__init__(*a)
        self.cache = {}
        self.key = None


NOENV = Env()


class Sym:
    """Renders expressions canonically. env maps parameter declids and 'this' to renderings of the caller."""

    def __init__(self, prog):
        self.p = prog

    def r(self, fn, i, env=None, depth=0):
        if i is None or i < 0:
            return "?"
        if env is None:
            env = NOENV
        c = getattr(env, "cache", None)
        if c is None:
            return self._r(fn, i, env, depth)
        key = (fn.id, i)
        s = c.get(key)
        if s is None:
            s = self._r(fn, i, env, depth)
            if "..." not in s:
                c[key] = s
        return s

    def _r(self, fn, i, env, depth):
        x = fn.n[i]
        k = x[0]
        if depth > 24:
            return "..."
        R = lambda j: self.r(fn, j, env, depth + 1)
        if k == "ref":
            name, kind, did, ty = x[2]
            if did in env:
                return env[did]
            if kind == "local":
                vd = self.p.vardef(fn, did)
                if vd:
                    f2, vi = vd
                    v = f2.n[vi]
                    if v[3]:
                        if v[2]["n"].startswith("__range"):
                            return self.r(f2, v[3][0], env, depth + 1)
                        if v[2]["n"].startswith("__begin"):
                            s = self.r(f2, v[3][0], env, depth + 1)
                            return s if s.startswith("iter(") else f"iter({s})"
                        s = None
                        if v[2]["ref"] or self.p.single_def(fn, did):
                            s = self.r(f2, v[3][0], env, depth + 1)
                            # a container/object constructed locally stays itself
                            if not v[2]["ref"] and f2.n[v[3][0]][0] == "new" and f2.n[v[3][0]][2]["k"] == "ctor":
                                if not self._wrapper(f2.n[v[3][0]][2]):
                                    return "local:" + self.p.lname(fn, did, name)
                            return s
                        s = self.r(f2, v[3][0], env, depth + 1)
                        if s.startswith("iter("):
                            return s
                    if not v[2]["ref"] and (not v[3] or s == "null" or self._emptyptr(f2, v[3][0])):
                        sa = self.p.sole_assign(f2, did)
                        if sa is not None:
                            return self.r(sa[0], sa[1], env, depth + 1)
                return "local:" + self.p.lname(fn, did, name)
            if kind == "bind":
                b = self.p.bindinit(fn, did)
                if b:
                    f2, vi, ix = b
                    v = f2.n[vi]
                    base = self.r(f2, v[3][0], env, depth + 1) if v[3] else "?"
                    return f"{base}.{('first', 'second')[ix] if ix < 2 else ix}"
                return f"bind:{name}"
            if kind == "param":
                return f"param:{name}"
            if kind == "enum":
                return did
            if kind == "func":
                return f"fn:{did}"
            return did
        if k == "this":
            return env.get("this", "this")
        if k == "mem":
            b = R(x[3][0])
            return f"{b}.{x[2][0]}"
        if k == "call":
            inf = x[2]
            q = inf["q"]
            last = q.rsplit("::", 1)[-1]
            if q in PASS1 and x[3]:
                return R(x[3][0])
            if inf["o"]:
                o = R(x[3][0])
                a = x[3][1:]
                std = q.startswith("std::")
                if last in ("operator->", "operator*") and not a:
                    if o.startswith("iter("):
                        return f"elem{o[4:]}"
                    return o
                if std and last == "get" and not a:
                    if "future" in q:
                        return f"{o}.get()"
                    return o
                if std and last == "value" and not a:
                    return o
                if last == "operator bool":
                    return o
                if last in ("begin", "cbegin", "rbegin", "crbegin") and not a:
                    return f"iter({o})" if last in ("begin", "cbegin") else f"iter(rev({o}))"
                if last in ("end", "cend", "rend", "crend") and not a:
                    return f"end({o})"
                if last in ("operator[]", "at") and std:
                    if "map" in q:
                        return f"{o}[{R(a[0])}]"
                    return f"elem({o})"
                if last in ("front", "back") and std and not a:
                    return f"{o}.{last}()"
                if last in ("operator++", "operator--"):
                    return o
                g = self.p.getter(inf["id"])
                if g is not None and (not inf["v"] or len(self.p.overriders(inf["id"])) == 1):
                    f2 = self.p.fns[inf["id"]]
                    e2 = {"this": o}
                    for pr, aj in zip(f2.params, a):
                        e2[pr[1]] = R(aj)
                    return self.r(f2, g, e2, depth + 1)
                # conversion of a view of the object
                if last.startswith("operator ") and not a:
                    return o
                args = ",".join(R(j) for j in a)
                nm = last
                if q.startswith("std::") or True:
                    return f"{o}.{nm}({args})"
            g = self.p.getter(inf["id"])
            if g is not None:
                f2 = self.p.fns[inf["id"]]
                e2 = {}
                for pr, aj in zip(f2.params, x[3]):
                    e2[pr[1]] = R(aj)
                return self.r(f2, g, e2, depth + 1)
            if inf["k"] == "op" and len(x[3]) == 2:
                return f"({R(x[3][0])}{last[8:]}{R(x[3][1])})"
            if q in ("std::begin", "std::cbegin") and x[3]:
                return f"iter({R(x[3][0])})"
            if q in ("std::end", "std::cend") and x[3]:
                return f"end({R(x[3][0])})"
            if q in ("eckit::SysCall",) and x[3]:
                return R(x[3][0])
            return f"{q}({','.join(R(j) for j in x[3])})"
        if k == "icall":
            return f"icall({','.join(R(j) for j in x[3])})"
        if k == "new":
            inf = x[2]
            if inf["k"] in ("copy", "move") and x[3]:
                return R(x[3][0])
            if self._wrapper(inf) and len(x[3]) >= 1:
                return R(x[3][0])
            return f"{inf['t']}({','.join(R(j) for j in x[3])})"
        if k in ("int", "float", "char"):
            return str(x[2])
        if k == "bool":
            return "true" if x[2] else "false"
        if k == "str":
            return '"' + (x[2] or "") + '"'
        if k == "nullptr":
            return "null"
        if k == "un":
            op = x[2]
            s = R(x[3][0])
            if op in ("*",):
                if s.startswith("iter("):
                    return f"elem{s[4:]}"
                return s
            if op == "&":
                return s
            if op in ("++", "--", "p++", "p--", "+"):
                return s
            return f"{op}{s}"
        if k in ("bin", "assign"):
            return f"({R(x[3][0])}{x[2]}{R(x[3][1])})"
        if k == "cast":
            return R(x[3][0])
        if k == "idx":
            return f"elem({R(x[3][0])})"
        if k == "cond":
            return f"({R(x[3][0])}?{R(x[3][1])}:{R(x[3][2])})"
        if k == "lambda":
            return f"lambda:{x[2]['f']}"
        if k == "newexpr":
            return f"new({R(x[3][0]) if x[3] else x[2]})"
        if k == "initlist":
            return "{" + ",".join(R(j) for j in x[3]) + "}"
        if k == "sizeof":
            return f"sizeof({x[2][0]})" if not x[2][1] else x[2][1]
        if k == "decl":
            return R(x[3][0]) if x[3] else "?"
        if k == "var":
            return "local:" + self.p.lname(fn, x[2]["d"], x[2]["n"])
        return f"{k}({','.join(R(j) for j in x[3])})"

    @staticmethod
    def _emptyptr(f, i):
        """a smart pointer constructed without arguments"""
        x = f.n[i]
        return x[0] == "new" and x[2]["k"] == "ctor" and not x[3] and x[2]["q"].startswith(("std::unique_ptr::", "std::shared_ptr::"))

    @staticmethod
    def _wrapper(inf):
        q = inf["q"]
        return q.startswith(("std::unique_ptr::", "std::shared_ptr::", "std::optional::", "std::reference_wrapper::",
                             "std::basic_string_view::", "std::function::"))

    # --- conditions

    def formula(self, fn, i, env=None, pol=True, depth=0):
        """nested ('and'|'or', [..]) / ('atom', text, polarity) / ('const', bool)"""
        if env is None:
            env = NOENV
        if depth == 0:
            c = getattr(env, "cache", None)
            if c is not None:
                key = (fn.id, i, pol)
                f = c.get(key)
                if f is None:
                    f = c[key] = self._formula(fn, i, env, pol, 0)
                return f
        return self._formula(fn, i, env, pol, depth)

    def _formula(self, fn, i, env, pol, depth):
        x = fn.n[i]
        k = x[0]
        if depth > 12:
            return ("atom", self.r(fn, i, env), pol)
        F = lambda j, p=pol: self.formula(fn, j, env, p, depth + 1)
        if k == "un" and x[2] == "!":
            return F(x[3][0], not pol)
        if k == "bin" and x[2] in ("&&", "||"):
            a, b = F(x[3][0]), F(x[3][1])
            op = "and" if (x[2] == "&&") == pol else "or"
            return (op, [a, b])
        if k == "bin" and x[2] == ",":
            return F(x[3][1])
        if k == "bool":
            return ("const", bool(x[2]) == pol)
        if k == "int":
            return ("const", (str(x[2]) != "0") == pol)
        if k == "cast":
            return F(x[3][0])
        if k == "cond":
            c, a, b = x[3]
            if fn.n[b][0] == "bool" and not fn.n[b][2]:
                return ("and" if pol else "or", [F(c), F(a)])
            if fn.n[a][0] == "bool" and fn.n[a][2]:
                return ("or" if pol else "and", [F(c), F(b)])
            if fn.n[a][0] == "bool" and fn.n[b][0] == "bool":
                return F(c, pol if fn.n[a][2] else not pol)
        if k == "bin" and x[2] in ("==", "!=", "<", ">", "<=", ">="):
            return self._cmp(x[2], self.r(fn, x[3][0], env), self.r(fn, x[3][1], env), pol)
        if k == "call":
            last = x[2]["q"].rsplit("::", 1)[-1]
            if last in ("operator==", "operator!=", "operator<", "operator>", "operator<=", "operator>=") and len(x[3]) == 2:
                return self._cmp(last[8:], self.r(fn, x[3][0], env), self.r(fn, x[3][1], env), pol)
            if last == "operator!":
                return F(x[3][0], not pol)
            if last in ("empty",) and x[2]["o"]:
                return ("atom", f"empty({self.r(fn, x[3][0], env)})", pol)
            if last in ("has_value", "operator bool") and x[2]["o"]:
                return ("atom", f"{self.r(fn, x[3][0], env)}", pol)
            g = self.p.getter(x[2]["id"])
            if g is not None and (not x[2]["v"] or len(self.p.overriders(x[2]["id"])) == 1):
                f2 = self.p.fns[x[2]["id"]]
                e2 = {}
                a = x[3]
                if x[2]["o"]:
                    e2["this"] = self.r(fn, a[0], env)
                    a = a[1:]
                for pr, aj in zip(f2.params, a):
                    e2[pr[1]] = self.r(fn, aj, env)
                return self.formula(f2, g, e2, pol, depth + 1)
            if g is None and depth < 6 and (not x[2]["v"] or len(self.p.overriders(x[2]["id"])) == 1):
                f2 = self.p.fns.get(x[2]["id"])
                if f2 is not None and self.p.predicate(f2.id):
                    e2 = {}
                    a = x[3]
                    if x[2]["o"]:
                        e2["this"] = self.r(fn, a[0], env)
                        a = a[1:]
                    for pr, aj in zip(f2.params, a):
                        e2[pr[1]] = self.r(fn, aj, env)
                    t = self._returns(f2, [f2.body], e2, pol, depth + 1)
                    if t is not None:
                        return t
        if k == "ref" and x[2][1] == "local" and x[2][2] not in env:
            vd = self.p.vardef(fn, x[2][2])
            if vd and vd[0].n[vd[1]][3] and self.p.single_def(fn, x[2][2]):
                init = vd[0].n[vd[1]][3][0]
                if vd[0].n[vd[1]][2]["t"] in ("bool", "const bool"):
                    return self.formula(vd[0], init, env, pol, depth + 1)
        s = self.r(fn, i, env)
        if s in ("true", "false"):
            return ("const", (s == "true") == pol)
        while s.startswith("!"):
            s = s[1:]
            pol = not pol
        return ("atom", s, pol)

    def _returns(self, f, stmts, env, pol, depth):
        """the condition under which a predicate made of declarations, ifs and returns returns pol"""
        if not stmts:
            return None
        x = f.n[stmts[0]]
        k = x[0]
        rest = stmts[1:]
        if k == "block":
            return self._returns(f, list(x[3]) + rest, env, pol, depth)
        if k == "return":
            return self.formula(f, x[3][0], env, pol, depth) if x[3] else None
        if k == "if":
            c, th = x[3][0], x[3][1]
            el = x[3][2:3]
            t1 = self._returns(f, [th] + rest, env, pol, depth)
            t2 = self._returns(f, list(el) + rest, env, pol, depth)
            if t1 is None or t2 is None:
                return None
            a = self.formula(f, c, env, True, depth)
            b = self.formula(f, c, env, False, depth)
            parts = []
            for cf, t in ((a, t1), (b, t2)):
                if t == ("const", False) or cf == ("const", False):
                    continue
                parts.append(cf if t == ("const", True) else ("and", [cf, t]))
            if not parts:
                return ("const", False)
            return parts[0] if len(parts) == 1 else ("or", parts)
        if k == "throw":
            return ("const", False)
        if k in ("decl", "null", "call", "cast", "cond"):
            return self._returns(f, rest, env, pol, depth)
        return None

    def _cmp(self, op, a, b, pol):
        if op == "!=":
            op, pol = "==", not pol
        elif op == ">":
            a, b, op = b, a, "<"
        elif op == "<=":
            a, b, op, pol = b, a, "<", not pol
        elif op == ">=":
            op, pol = "<", not pol
        if op == "==":
            if a > b:
                a, b = b, a
            for u, v in ((a, b), (b, a)):
                if v == "null":
                    return ("atom", u, not pol)
                if v == "false":
                    return ("atom", u, not pol)
                if v == "true":
                    return ("atom", u, pol)
                if v == "0" and (u.endswith(".size()") or u.endswith(".length()")):
                    return ("atom", f"empty({u.rsplit('.', 1)[0]})", pol)
                if u.startswith("iter(") and v.startswith("end("):
                    return ("atom", f"atend({v[4:-1]})", pol)
            return ("atom", f"{a}=={b}", pol)
        # <
        if a == "0" and (b.endswith(".size()") or b.endswith(".length()")):
            return ("atom", f"empty({b.rsplit('.', 1)[0]})", not pol)
        if b == "1" and (a.endswith(".size()") or a.endswith(".length()")):
            return ("atom", f"empty({a.rsplit('.', 1)[0]})", pol)
        return ("atom", f"{a}<{b}", pol)


def atoms(f):
    """all (text, polarity) in a formula"""
    if f[0] == "atom":
        yield f[1], f[2]
    elif f[0] in ("and", "or"):
        for g in f[1]:
            yield from atoms(g)


def implied(f):
    """atoms certainly true when the formula is true"""
    if f[0] == "atom":
        return {(f[1], f[2])}
    if f[0] == "and":
        s = set()
        for g in f[1]:
            s |= implied(g)
        return s
    if f[0] == "or":
        s = None
        for g in f[1]:
            t = implied(g)
            s = t if s is None else s & t
        return s or set()
    return set()
