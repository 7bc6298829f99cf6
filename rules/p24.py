"""P24 descriptors, streams and handles: whoever opens one releases it on every exit, once"""
import re

from vt.engine import Engine, Rule
from vt.lib import CallPred, expand, last, must_pass
from vt.prog import Sym, atoms

TECHNIQUE = "typestate analysis of acquired resources over normal and exceptional exits, with ownership transfer; class invariants of members that hold resources"
FLOORS = {"local": 3, "member": 4, "session": 5, "handle": 10}
ASSUMPTIONS = ["a destructor of a smart pointer releases what it points to", "allocation failures while ownership is handed over are ignored",
               "objects of eckit's FileDescHandle, StdDir and MultiHandle own what their constructors are given"]

OPEN = re.compile(r"^(::)?(open|openat|creat|fopen|fdopen|opendir|fdopendir|dup|mmap|popen|socket|accept|mkstemp|daos_(?:cont|array|kv|obj|oit)_open\w*|daos_array_create|daos_pool_connect)$")
CLOSE = {"open": "close", "openat": "close", "creat": "close", "dup": "close", "socket": "close", "accept": "close", "mkstemp": "close", "fopen": "fclose", "fdopen": "fclose",
         "opendir": "closedir", "fdopendir": "closedir", "mmap": "munmap", "popen": "pclose", "daos_cont_open": "daos_cont_close", "daos_oit_open": "daos_oit_close",
         "daos_array_create": "daos_array_close", "daos_array_open": "daos_array_close", "daos_array_open_with_attr": "daos_array_close", "daos_kv_open": "daos_obj_close",
         "daos_obj_open": "daos_obj_close", "daos_pool_connect": "daos_pool_disconnect"}
RELEASE = re.compile(r"^(::)?(close|fclose|closedir|munmap|pclose|daos_cont_close|daos_oit_close|daos_array_close|daos_obj_close|daos_kv_close|daos_pool_disconnect)$")
OUTARG = re.compile(r"^(::)?daos_")
OWNER = re.compile(r"^(std::(unique|shared)_ptr|eckit::(StdDir|MultiHandle|FileDescHandle|AutoStdFile|PooledHandle)|std::(pair|tuple|optional))\b")
PASS = re.compile(r"^std::(move|forward|make_pair|make_tuple|make_unique|make_shared|pair::|tuple::)|^eckit::(SyscallError|Sys)")
GROW = {"push_back", "emplace_back", "emplace", "insert", "push", "try_emplace", "insert_or_assign"}


def kind(q):
    return q.rsplit("::", 1)[-1]


def up(f, i, n=1):
    a = list(f.ancestors(i))
    return a[n - 1] if len(a) >= n else None


def refs(f, i, d):
    """does the subtree denote the variable d?"""
    return any(f.n[j][0] == "ref" and f.n[j][2][2] == d for j in f.walk(i))


class Owners:
    """classes and functions that take over what they are given"""

    def __init__(self, p):
        self.p = p
        self.sym = Sym(p)
        self.memo = {}
        self.members = {}

    def released(self, cls):
        """members (or their elements) which the destructor of the class releases"""
        if cls in self.members:
            return self.members[cls]
        out = self.members[cls] = set()
        for f in self.p.fns.values():
            if f.cls != cls or f.kind != "dtor":
                continue
            seen, work = set(), [f]
            while work:
                g = work.pop()
                if g.id in seen or not g.blocks:
                    continue
                seen.add(g.id)
                for i, x in enumerate(g.n):
                    t = None
                    if x[0] == "delete" and x[3]:
                        t = self.sym.r(g, x[3][0])
                    elif x[0] == "call" and (RELEASE.match(x[2]["q"]) or x[2]["q"] == "std::default_delete::operator()") and g.args(i):
                        t = self.sym.r(g, g.args(i)[0])
                    if t:
                        out |= set(re.findall(r"this\.(\w+)", expand(self.sym, g, t)))
                for i, inf in g.calls():
                    for h in self.p.targets(inf):
                        if h.cls == cls and h.kind != "dtor":
                            work.append(h)
        return out

    def smart(self, cls, m):
        """is the member a smart pointer, or a container of them?"""
        for c in [cls] + list(self.p.superclasses(cls)):
            for f in self.p.classes.get(c, {}).get("fields", []):
                if f[0] == m:
                    return bool(re.search(r"(unique|shared)_ptr|MultiHandle", f[1]))
        return False

    def takes(self, g, d, depth=0):
        """does g take over its parameter d (somewhere)?"""
        k = (g.id, d)
        if k in self.memo:
            return self.memo[k]
        self.memo[k] = False
        if depth > 3 or not g.blocks:
            return False
        for it in g.inits:
            if it[0] == "field" and it[2] is not None and it[2] >= 0 and refs(g, it[2], d) and (last(it[1]) in self.released(g.cls) or self.smart(g.cls, last(it[1]))):
                self.memo[k] = True
                return True
        name = next((a[0] for a in g.params if a[1] == d), "?")
        r = Local(self.p, self, g, None, d, name)
        if not r.take:
            return False
        n, _ = Engine(self.p, r).run(g, "held", None)
        self.memo[k] = "held" not in n
        return self.memo[k]

    def consumed(self, f, i, depth=0):
        """is the value of the expression i handed to an owner, released or returned? -> what takes it"""
        child = i
        for a in f.ancestors(i):
            x = f.n[a]
            if x[0] in ("cast", "paren") or x[0] == "un" and x[2] in ("*",) or x[0] == "initlist":
                child = a
                continue
            if x[0] == "cond":
                if x[3][0] == child:
                    return None
                child = a
                continue
            if x[0] == "return":
                return "return"
            if x[0] == "delete":
                return "delete"
            if x[0] == "assign":
                if x[3][1] != child:
                    return None
                t = self.sym.r(f, x[3][0])
                m = re.match(r"^this\.(\w+)$", t)
                if m and f.cls and (m.group(1) in self.released(f.cls) or self.smart(f.cls, m.group(1))):
                    return f"member {m.group(1)}"
                child = a
                continue
            if x[0] in ("call", "new"):
                q = x[2]["q"]
                if RELEASE.match(q):
                    return q
                if x[0] == "call" and f.obj(a) == child and x[2]["k"] != "op":
                    return None
                if OWNER.match(q.replace("::<ctor>", "")) and not q.startswith(("std::pair", "std::tuple")) or re.search(r"std::(unique|shared)_ptr::(reset|operator=)$", q):
                    return q
                if x[2]["k"] == "op" and kind(q) == "operator=" and f.args(a) and f.args(a)[-1] == child:
                    t = self.sym.r(f, x[3][0])
                    if re.search(r"(unique|shared)_ptr", x[2]["q"]):
                        return t
                if PASS.match(q) or x[0] == "new" and x[2]["k"] in ("copy", "move"):
                    child = a
                    continue
                if kind(q) in GROW or kind(q) == "operator+=":
                    o = f.obj(a)
                    if o is None:
                        return None
                    t = expand(self.sym, f, self.sym.r(f, o))
                    m = re.match(r"^this\.(\w+)", t)
                    ct = f.n[o][2][3] if f.n[o][0] == "mem" else f.n[o][2][3] if f.n[o][0] == "ref" else ""
                    if m and f.cls and (m.group(1) in self.released(f.cls) or self.smart(f.cls, m.group(1))) or re.search(r"(unique|shared)_ptr|MultiHandle", str(ct)):
                        return f"container {t}"
                    # elements that own what they are made from
                    if any(c in self.p.classes and self.released(c) for c in re.findall(r"<\s*([\w:]+)", str(ct))):
                        return f"container {t}"
                    return None
                ts = self.p.targets(x[2])
                if child in f.args(a):
                    ix = f.args(a).index(child)
                    for g in ts:
                        if ix < len(g.params) and self.takes(g, g.params[ix][1], depth):
                            return q
                return None
            if x[0] == "lambda" or x[0] in ("block", "if", "while", "for", "forrange", "decl"):
                return None
            if x[0] == "var":
                return "own:" + q if (q := self.owning_var(x)) else None
            return None
        return None

    def owning_var(self, x):
        t = x[2].get("c") or x[2]["t"]
        return t if OWNER.match(t.replace("const ", "")) else None


class Local(Rule):
    """what the call `at` yields, kept in the variable d, is released or handed over whenever the function is left"""
    exceptions = True

    def __init__(self, p, own, f, at, d, name):
        super().__init__(p)
        self.own, self.f, self.at, self.d = own, f, at, d
        self.name = name
        self.take = {}
        for i, x in enumerate(f.n):
            if x[0] == "ref" and x[2][2] == d:
                w = own.consumed(f, i)
                if w:
                    child = i
                    for a in f.ancestors(i):
                        if f.n[a][0] in ("call", "new", "assign", "return", "delete"):
                            if not (isinstance(f.n[a][2], dict) and (PASS.match(f.n[a][2]["q"]) or f.n[a][2].get("k") in ("copy", "move"))):
                                self.take.setdefault(a, w)
                                break
                        if f.n[a][0] in ("block", "if", "while", "for"):
                            break
        self.double = {}

    def interesting(self, fn):
        return False

    def relevant(self, fn):
        return False

    def is_var(self, fr, i):
        return any(fr.fn.n[j][0] == "ref" and fr.fn.n[j][2][2] == self.d for j in fr.fn.walk(i))

    def call(self, fr, st, i, inf):
        if i == self.at:
            return ("held",)
        if i in self.take:
            if st == "gone" and RELEASE.match(inf["q"]):
                self.double[i] = fr.fn.loc(i)
            return ("gone",)
        return None

    def excstate(self, fr, st, i):
        return ("gone",) if i in self.take else (st,)

    def may_throw(self, inf):
        q = inf["q"]
        return super().may_throw(inf) and not RELEASE.match(q) and not OPEN.match(q) and not PASS.match(q) and inf.get('k') not in ('copy', 'move') and not re.match(r"^(::)?(readdir|str\w+|mem\w+|fstat|stat|flock|fileno|std::(pair|vector|string|basic_string|unique_ptr|move)\b.*)$|^eckit::(Log|PathName::~|Length|Offset)", q)

    def assign(self, fr, st, i):
        return ("gone",) if i in self.take else None

    def element(self, fr, st, i):
        if isinstance(i, int) and i in self.take:
            return ("gone",)
        return None

    def branch(self, fr, st, form, cond):
        if st != "held" or not self.is_var(fr, cond):
            return None
        vs = {self.sym.r(fr.fn, j, fr.env) for j in fr.fn.walk(cond) if fr.fn.n[j][0] == "ref" and fr.fn.n[j][2][2] == self.d} | {f"local:{self.name}", f"param:{self.name}"}
        for a, pol in atoms(form):
            for v in vs:
                if v in a and invalid(a.replace(v, "V"), pol):
                    return ("-",)
        return None


def invalid(a, pol):
    """does the atom say that the resource is not there?"""
    if re.search(r"<0\)?$", a) or re.search(r"==-1|-1==", a) or re.search(r"null==|==null", a) or "0==" in a and "open(" in a:
        return pol
    if re.match(r"^\(?0<", a) or re.search(r"<=-1", a):
        return not pol if a.startswith(("0<", "(0<")) else pol
    if re.match(r"^[\w:.]+$", a) or re.search(r"^(::)?\w*open\w*\(", a):
        return not pol
    return False


def holder(f, at):
    """where the value of the acquiring call goes -> ('var', declid, name) | ('member', name) | ('direct', None)"""
    x = f.n[at]
    if OUTARG.match(x[2]["q"]):
        for a in f.args(at):
            y = f.n[a]
            if y[0] == "un" and y[2] == "&":
                z = f.n[y[3][0]]
                if z[0] == "mem":
                    ty = z[2][3]
                    if "daos_handle_t" in ty or "handle" in ty:
                        return "member", last(z[2][0]), None
                if z[0] == "ref" and ("daos_handle_t" in z[2][3] or "handle" in z[2][3]):
                    return "var", z[2][2], z[2][0]
        return "direct", None, None
    child = at
    for it in f.inits:
        if it[0] == "field" and it[2] is not None and it[2] >= 0 and at in set(f.walk(it[2])):
            return "member", last(it[1]), None
    for a in f.ancestors(at):
        y = f.n[a]
        if y[0] == "var":
            return "var", y[2]["d"], y[2]["n"]
        if y[0] == "assign":
            z = f.n[y[3][0]]
            if z[0] == "mem":
                return "member", last(z[2][0]), None
            if z[0] == "ref":
                return "var", z[2][2], z[2][0]
            return "direct", None, None
        if y[0] == "call" and not re.search(r"(?i)syscall|ThrowIfError", y[2]["q"]) and y[2]["k"] != "op":
            return "direct", None, None
        if y[0] in ("block", "return", "new"):
            return "direct", None, None
        child = a
    return "direct", None, None


def closes(p, own, cls, m):
    return m in own.released(cls)


def run(ctx):
    p = ctx.p
    sym = Sym(p)
    own = Owners(p)
    src = lambda f: f.file.startswith("fdb5/") and "/tools/" not in f.file and "/compat/" not in f.file

    members = {}
    for f in sorted(p.fns.values(), key=lambda g: g.id):
        if not src(f):
            continue
        for i, inf in f.calls():
            if not OPEN.match(inf["q"]):
                continue
            how, x, name = holder(f, i)
            if how == "var":
                local(ctx, p, own, f, i, x, name, inf["q"])
            elif how == "member":
                members.setdefault((f.cls, x), []).append((f, i, inf["q"]))
            else:
                w = own.consumed(f, i)
                ctx.ob("local", f"{f.id}: what {kind(inf['q'])} yields has an owner", bool(w), f.loc(i), w or "the result is given to nobody who releases it")

    for (cls, m), sites in sorted(members.items()):
        member(ctx, p, sym, cls, m, sites)

    moved(ctx, p, sym, own, src)
    session(ctx, p, sym)
    handles(ctx, p, sym, own, src)


def local(ctx, p, own, f, at, d, name, what):
    r = Local(p, own, f, at, d, name)
    n, e = Engine(p, r).run(f, "-", None)
    ctx.count(r)
    inst = f"{f.id}: `{name}` ({kind(what)})"
    ctx.ob("local", inst + " is released or handed over on every normal exit", "held" not in n and bool(r.take), f.loc(at), f"taken by {sorted(set(r.take.values()))}" if r.take else "nobody takes it over")
    ctx.ob("local", inst + " is released or handed over when an exception leaves", "held" not in e, f.loc(at), f"states with which an exception leaves: {sorted(e)}")
    ctx.ob("local", inst + " is not released twice", not r.double, f.loc(at), "; ".join(r.double.values()) or "one release on each path")


class Member(Rule):
    """releases, acquisitions and marks of a member within the functions of its class"""

    def __init__(self, p, cls, m, flag):
        super().__init__(p)
        self.cls, self.m, self.flag = cls, m, flag
        self.bad = {}
        self.rel = self.acq = 0
        self.rx = re.compile(r"^\(?&?this\." + m + r"\)?$")

    def interesting(self, fn):
        return fn.cls == self.cls

    def relevant(self, fn):
        return fn.cls == self.cls and fn.kind not in ("ctor", "dtor")

    def is_m(self, fr, i):
        return bool(self.rx.match(self.sym.r(fr.fn, i, fr.env)))

    def call(self, fr, st, i, inf):
        q = inf["q"]
        if RELEASE.match(q) and fr.fn.args(i) and self.is_m(fr, fr.fn.args(i)[0]):
            self.rel += 1
            if st in ("released", "none"):
                self.bad[("twice", i)] = (fr.fn.loc(i), "released although it is not held any more")
            return ("released",)
        if OPEN.match(q) and holder(fr.fn, i)[:2] == ("member", self.m):
            self.acq += 1
            if st not in ("none", "released"):
                self.bad[("over", i)] = (fr.fn.loc(i), "opened although it may be open already: the former one is lost")
            return ("fresh",)
        if inf["q"] == "eckit::FileDescHandle::<ctor>" and self.is_m(fr, fr.fn.args(i)[0]):
            a = fr.fn.args(i)
            return ("released",) if len(a) > 1 and self.sym.r(fr.fn, a[1], fr.env) == "true" else None
        if any(h.cls == self.cls for h in self.p.targets(inf)) and fr.fn.obj(i) is not None and fr.fn.n[fr.fn.obj(i)][0] != "this":
            return (st,)
        return None

    def assign(self, fr, st, i):
        x = fr.fn.n[i]
        if x[0] != "assign":
            return None
        t = self.sym.r(fr.fn, x[3][0], fr.env)
        v = self.sym.r(fr.fn, x[3][1], fr.env)
        if t == f"this.{self.m}" and not OPEN.match(v.split("(")[0]) and v in ("-1", "null", "0", "nullptr"):
            if st not in ("released", "none"):
                self.bad[("drop", i)] = (fr.fn.loc(i), f"forgotten without having been released ({st})")
            return ("none",)
        if self.flag and t == f"this.{self.flag}":
            if v == "false":
                if st not in ("released", "none"):
                    self.bad[("drop", i)] = (fr.fn.loc(i), f"marked as closed without having been released ({st})")
                return ("none",)
            if v == "true":
                if st not in ("fresh", "held"):
                    self.bad[("mark", i)] = (fr.fn.loc(i), f"marked as open although nothing was opened ({st})")
                return ("held",)
        return None

    def branch(self, fr, st, form, cond):
        for a, pol in atoms(form):
            if self.flag and re.match(r"^this\." + self.flag + "$", a):
                if st in ("?", "held" if pol else "none"):
                    return ("held",) if pol else ("none",)
                if st in ("held", "none"):
                    return ()
            if re.search(r"\bthis\." + self.m + r"\b", a) and not re.search(r"open\w*\(", a):
                gone = invalid(a, pol)
                if st == "?":
                    return ("none",) if gone else ("held",)
                if gone and st in ("held", "fresh") or not gone and st == "none":
                    return ()
            elif st == "fresh" and re.search(r"open\w*\(", a) and invalid(a, pol):
                return ("none",)
        return None


def flag_of(p, sym, cls, m, sites):
    """the boolean that says whether the member is open"""
    for f, i, q in sites:
        for j, x in enumerate(f.n):
            if x[0] == "assign" and x[2] == "=" and j > i:
                t, v = sym.r(f, x[3][0]), sym.r(f, x[3][1])
                g = re.match(r"^this\.(\w+)$", t)
                if g and v == "true":
                    return g.group(1)
    return None


def member(ctx, p, sym, cls, m, sites):
    f0, i0, q0 = sites[0]
    flag = flag_of(p, sym, cls, m, sites)
    where = f0.loc(i0)
    inst = f"{cls}::{m}"
    dts = [f for f in p.fns.values() if f.cls == cls and f.kind == "dtor"]
    if not dts:
        ctx.ob("member", f"{inst}: the destructor releases it", False, where, "the class has no destructor")
    else:
        sanction = [(r"this\." + m + r"\b", None)]
        if flag:
            sanction.append((r"^this\." + flag + "$", False))
        closer = [CallPred(RELEASE.pattern, args={0: r"^&?\(?this\." + m + r"\b"})]
        r = Gone(p, cls, m, flag)
        n, e = Engine(p, r).run(dts[0], "held", None)
        ctx.count(r)
        ctx.ob("member", f"{inst}: the destructor releases it", "held" not in n and r.hits > 0, dts[0].loc(), f"states at the end: {sorted(n)}, {r.hits} release(s)")
    # within the functions of the class
    bad, acq, rel = {}, 0, 0
    roots = [f for f in p.fns.values() if f.cls == cls and f.kind != "dtor" and f.blocks and not f.parent_fn]
    for f in sorted(roots, key=lambda g: g.id):
        r = Member(p, cls, m, flag)
        n, e = Engine(p, r).run(f, "none" if f.kind == "ctor" else "?", None)
        ctx.count(r)
        bad.update(r.bad)
        if "released" in set(n) | set(e):
            bad[("twice", f.id)] = (f.loc(), "released but still marked as held: it is released again later")
        acq += r.acq
        rel += r.rel
        if flag and "fresh" in n:
            bad[("flag", f.id)] = (f.loc(), f"left open without `{flag}` being set")
    for what, text in (("over", "is opened only when it is not open"), ("twice", "is released once"), ("drop", "is forgotten only when it has been released"), ("mark", "is marked as open exactly when it is")):
        b = sorted(v for k, v in bad.items() if k[0] == what or what == "mark" and k[0] == "flag")
        ctx.ob("member", f"{inst}: {text}", not b, b[0][0] if b else where, b[0][1] if b else f"{acq} acquisition(s), {rel} release(s), flag {flag}")


class Gone(Rule):
    """the destructor"""

    def __init__(self, p, cls, m, flag):
        super().__init__(p)
        self.cls, self.m, self.flag, self.hits = cls, m, flag, 0

    def interesting(self, fn):
        return fn.cls == self.cls

    def relevant(self, fn):
        return fn.cls == self.cls and fn.kind not in ("ctor",)

    def call(self, fr, st, i, inf):
        if RELEASE.match(inf["q"]) and fr.fn.args(i) and re.match(r"^\(?this\." + self.m + r"\b", self.sym.r(fr.fn, fr.fn.args(i)[0], fr.env)):
            self.hits += 1
            return ("gone",)
        return None

    def branch(self, fr, st, form, cond):
        if st != "held":
            return None
        for a, pol in atoms(form):
            if self.flag and a == f"this.{self.flag}" and not pol:
                return ("none",)
            if re.search(r"\bthis\." + self.m + r"\b", a) and invalid(a, pol):
                return ("none",)
        return None


def raw(p, own, cls):
    return {m for m in own.released(cls) if not own.smart(cls, m) and any(f[0] == m and re.search(r"\*$|^int$", f[1]) for f in p.classes.get(cls, {}).get("fields", []))}


class Replace(Rule):
    """a pointer that the object owns is not overwritten"""

    def __init__(self, p, m):
        super().__init__(p)
        self.m, self.bad, self.n = m, {}, 0

    def interesting(self, fn):
        return False

    def relevant(self, fn):
        return False

    def element(self, fr, st, i):
        if isinstance(i, int) and fr.fn.n[i][0] == "delete" and fr.fn.n[i][3] and self.sym.r(fr.fn, fr.fn.n[i][3][0], fr.env) == f"this.{self.m}":
            return ("gone",)
        return None

    def call(self, fr, st, i, inf):
        if RELEASE.match(inf["q"]) and fr.fn.args(i) and self.sym.r(fr.fn, fr.fn.args(i)[0], fr.env) == f"this.{self.m}" or inf["q"] == "std::swap":
            return ("gone",)
        return None

    def assign(self, fr, st, i):
        x = fr.fn.n[i]
        if x[0] == "assign" and self.sym.r(fr.fn, x[3][0], fr.env) == f"this.{self.m}":
            v = self.sym.r(fr.fn, x[3][1], fr.env)
            if v.startswith("param:"):
                self.n += 1
                if st != "gone":
                    self.bad[i] = (fr.fn.loc(i), "overwritten without having been released")
            return ("set",) if v not in ("null", "-1") else None
        return None

    def branch(self, fr, st, form, cond):
        for a, pol in atoms(form):
            if f"this.{self.m}" in a and invalid(a.replace(f"this.{self.m}", "V"), pol):
                return ("gone",)
        return None


def moved(ctx, p, sym, own, src):
    """who owns a raw resource is not duplicated, and gives it up when it is moved from"""
    classes = sorted({f.cls for f in p.fns.values() if f.kind == "dtor" and f.cls and src(f)})
    for c in classes:
        ms = raw(p, own, c)
        if not ms:
            continue
        for f in sorted((f for f in p.fns.values() if f.cls == c and not f.d.get("deleted") and len(f.params) == 1 and f.params[0][2].endswith("&&") and c in f.params[0][2]), key=lambda g: g.id):
            a = f.params[0][0]
            for m in sorted(ms):
                takes = any(it[0] == "field" and last(it[1]) == m and it[2] is not None and it[2] >= 0 and f"param:{a}.{m}" in sym.r(f, it[2]) for it in f.inits) or \
                    any(x[0] == "assign" and sym.r(f, x[3][0]) == f"this.{m}" and f"param:{a}.{m}" in sym.r(f, x[3][1]) for x in f.n)
                gives = any(x[0] == "assign" and sym.r(f, x[3][0]) == f"param:{a}.{m}" for x in f.n) or any(inf["q"] in ("std::swap", "std::exchange") and any(f"param:{a}.{m}" in sym.r(f, y) for y in f.args(i)) for i, inf in f.calls())
                if takes or f.d.get("implicit"):
                    ctx.ob("member", f"{c}::{m}: is given up when the object is moved from ({f.name})", takes and gives and not f.d.get("implicit"), f.loc(), "the source keeps it and releases it, too" if not gives else "reset in the source")
        bad = [g.loc(i) for g in p.fns.values() for i, inf in g.calls() if g.n[i][0] == "new" and inf.get("k") == "copy" and inf["q"] == c + "::<ctor>" and g.cls != c]
        ctx.ob("member", f"{c}: no object that owns {', '.join(sorted(ms))} is duplicated", not bad, bad[0] if bad else "", "copied here" if bad else "no copy is made")
        for f in sorted((f for f in p.fns.values() if f.cls == c and f.blocks and f.kind not in ("ctor", "dtor") and p.callers.get(f.id)), key=lambda g: g.id):
            for m in sorted(ms):
                r = Replace(p, m)
                Engine(p, r).run(f, "-", None)
                if r.n:
                    ctx.count(r)
                    b = sorted(r.bad.values())
                    ctx.ob("member", f"{f.id}: does not lose what `{m}` owned before", not b, b[0][0] if b else f.loc(), b[0][1] if b else "released first")


class Session(Rule):
    """a table of contents that a function opens is closed whenever the function is left"""
    exceptions = True

    def __init__(self, p, cls, openers, closers, guards, fd):
        super().__init__(p)
        self.cls, self.openers, self.closers, self.guards, self.fd = cls, openers, closers, guards, fd
        self.n = 0

    def interesting(self, fn):
        return fn.cls == self.cls and fn.id not in self.openers

    def relevant(self, fn):
        return fn.cls == self.cls and fn.id not in self.openers and fn.id not in self.closers

    def call(self, fr, st, i, inf):
        ts = {t.id for t in self.p.targets(inf)}
        o = fr.fn.obj(i)
        mine = o is None or self.sym.r(fr.fn, o, fr.env) in ("this", "*this")
        if ts & self.openers and mine:
            self.n += 1
            return ("open",)
        if ts & self.closers and mine:
            return ("-",)
        if not mine and any(t.cls == self.cls for t in self.p.targets(inf)):
            return (st,)
        if inf["q"] in self.guards and st == "open":
            return ("-",)
        if OPEN.match(inf["q"]) and holder(fr.fn, i)[:2] == ("member", self.fd):
            self.n += 1
            return ("open",)
        return None

    def excstate(self, fr, st, i):
        inf = fr.fn.n[i][2]
        ts = {t.id for t in self.p.targets(inf)}
        if ts & self.closers or inf["q"] in self.guards:
            return ("-",)
        return (st,)

    def may_throw(self, inf):
        return super().may_throw(inf) and not re.search("(?i)syscall", inf["q"])


def session(ctx, p, sym):
    cls = "fdb5::TocHandler"
    meths = [f for f in p.fns.values() if f.cls == cls and f.blocks]
    rel = {f.id for f in meths for i, inf in f.calls() if RELEASE.match(inf["q"]) and f.args(i) and re.match(r"^this\.\w+$", sym.r(f, f.args(i)[0]))}
    fds = {re.match(r"^this\.(\w+)$", sym.r(f, f.args(i)[0])).group(1) for f in meths if f.id in rel for i, inf in f.calls() if RELEASE.match(inf["q"])}
    ctx.need(len(fds) == 1, f"{cls}: cannot tell the descriptor")
    fd = fds.pop()
    guards = set()
    for c in p.classes:
        for d in p.fns.values():
            if d.cls == c and d.kind == "dtor" and any({t.id for t in p.targets(inf)} & rel for _, inf in d.calls()) and c != cls:
                guards.add(c + "::<ctor>")
    acq = {f.id: any(inf["q"] in guards for _, inf in f.calls()) for f in meths for i, inf in f.calls() if OPEN.match(inf["q"]) and holder(f, i)[:2] == ("member", fd)}
    openers = {k for k, g in acq.items() if not g}
    ctx.need(openers, f"{cls}: nothing opens the table of contents")
    # whoever only forwards to an opener is one, as long as nobody else calls it
    for f in sorted(meths, key=lambda g: g.id):
        if f.id in openers or f.kind == "dtor":
            continue
        direct = any({t.id for t in p.targets(inf)} & openers for _, inf in f.calls()) or f.id in acq
        if not direct:
            continue
        r = Session(p, cls, openers, rel, guards, fd)
        n, e = Engine(p, r).run(f, "-", None)
        ctx.count(r)
        if not r.n:
            continue
        ctx.ob("session", f"{f.id}: closes the table of contents that it opens on every normal exit", "open" not in n, f.loc(), f"states at the end: {sorted(n)}")
        ctx.ob("session", f"{f.id}: closes the table of contents that it opens when an exception leaves", "open" not in e, f.loc(), f"states with which an exception leaves: {sorted(e)}")
    # handlers of sub-tables which are opened for the duration of a session
    for f in meths:
        for i, inf in f.calls():
            if {t.id for t in p.targets(inf)} & openers and f.obj(i) is not None:
                m = re.match(r"^(?:this\.)(\w+)$", sym.r(f, f.obj(i)))
                if not m:
                    continue
                for g in meths:
                    if g.id in rel:
                        must_pass(ctx, "session", g, [CallPred(r"^fdb5::TocHandler::\w+$", obj=r"^this\." + m.group(1) + "$", pred=None) if False else CallPred("|".join(re.escape(x.q) + "$" for x in meths if x.id in rel), obj=r"^this\." + m.group(1) + "$")],
                                  sanction=[(r"this\." + m.group(1) + "$", False)], what=f"closes the table of contents `{m.group(1)}` opened by {f.name}")


def handles(ctx, p, sym, own, src):
    """raw pointers to new data handles have an owner"""
    ret = re.compile(r"\bDataHandle \*$")
    borrowed = {}

    def lends(g):
        """does g return what somebody else owns?"""
        if g.id in borrowed:
            return borrowed[g.id]
        borrowed[g.id] = False
        rs = [x[3][0] for x in g.n if x[0] == "return" and x[3]]
        ts = [expand(sym, g, sym.r(g, i)) for i in rs]
        borrowed[g.id] = bool(ts) and all(t.startswith("null") or (m := re.match(r"^this\.(\w+)\b(?!.*\.release\(\))", t)) and (own.smart(g.cls, m.group(1)) or m.group(1) in own.released(g.cls)) for t in ts) and any(not t.startswith("null") for t in ts)
        return borrowed[g.id]

    for f in sorted(p.fns.values(), key=lambda g: g.id):
        if not src(f):
            continue
        for i, inf in f.calls():
            if inf["k"] == "op" or not ret.search(inf.get("t") or "") or inf["q"].startswith("std::"):
                continue
            ts = p.targets(inf)
            if ts and all(lends(t) for t in ts):
                continue
            w = own.consumed(f, i)
            if w:
                ctx.ob("handle", f"{f.id}: the handle of {kind(inf['q'])}", True, f.loc(i), w)
                continue
            how, x, name = holder(f, i)
            if how == "var":
                local(ctx, p, own, f, i, x, name, inf["q"])
            else:
                ctx.ob("handle", f"{f.id}: the handle of {kind(inf['q'])}", False, f.loc(i), "nobody takes the handle over")
    # a constructor that fails does not run its destructor
    for f in sorted(p.fns.values(), key=lambda g: g.id):
        if not src(f) or f.kind != "ctor" or not f.blocks:
            continue
        ms = {m for m in own.released(f.cls) if not own.smart(f.cls, m)}
        if not ms:
            continue
        r = Built(p, own, f, ms)
        n, e = Engine(p, r).run(f, "-", None)
        ctx.count(r)
        if ms:
            ctx.ob("handle", f"{f.id}: releases what it acquired when it fails", "held" not in e, f.loc(), f"{sorted(ms)}: states with which an exception leaves: {sorted(e)}")


class Built(Rule):
    exceptions = True

    def __init__(self, p, own, f, ms):
        super().__init__(p)
        self.own, self.ms, self.n = own, ms, 0
        self.ret = re.compile(r"\bDataHandle \*$")

    def interesting(self, fn):
        return False

    def relevant(self, fn):
        return False

    def call(self, fr, st, i, inf):
        if OPEN.match(inf["q"]) or self.ret.search(inf.get("t") or "") and inf["k"] != "op" and not inf["q"].startswith("std::"):
            w = self.own.consumed(fr.fn, i)
            if w and re.match(r"own:|std::|eckit::", w):
                return None
            self.n += 1
            return ("held",)
        return None

    def excstate(self, fr, st, i):
        return (st,)

    def branch(self, fr, st, form, cond):
        return ("-",) if st == "held" and any(invalid(a, pol) for a, pol in atoms(form) if re.search("|".join(self.ms), a)) else None
