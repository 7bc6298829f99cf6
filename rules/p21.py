"""Static decision of "no exception crosses the C interface": an escape analysis of every extern "C" function, the codes that handlers return,
null checks before every use of a pointer parameter, the code for the end of an iteration, and throwing destructors."""
import re

from vt.lib import CallPred, PathFacts, expand, last
from vt.engine import Engine
from vt.prog import Sym

TECHNIQUE = "exception-escape analysis of every extern \"C\" function, path facts (null checks before each dereference, codes returned by handlers and iterators), destructor effects"
ASSUMPTIONS = ["logging and copying an error message do not throw themselves", "pointers that are not null are valid"]
FLOORS = {"escape": 30, "code": 4, "null": 20, "end": 2}

FILE = re.compile(r"fdb5/api/fdb_c\.(cc|h)$")
QUIET = re.compile(r"^(eckit::Log::|std::operator<<|std::basic_ostream::|std::basic_string::|std::function::|std::move|std::forward|std::exception|eckit::Exception)|::what$|^eckit::CodeLocation")


class Deref(PathFacts):
    """every use of a pointer parameter of the root happens on paths on which it is known not to be null"""

    def __init__(self, prog, names, allow):
        super().__init__(prog, {n: rf"^param:{n}$" for n in names} | {"0" + n: rf"^param:{n}==(null|0)$|^(null|0)==param:{n}$" for n in names}, allow=allow, boolean=False)
        self.names = names
        self.uses = 0

    def allow(self, fn):
        return self._allow(fn)

    def interesting(self, fn):
        return True

    def use(self, fr, st, j, i):
        s = self.sym.r(fr.fn, j, fr.env)
        m = re.match(r"^param:(\w+)$", s)
        if not m or m.group(1) not in self.names:
            return
        if fr.fn.n[j][0] == "un" or (fr.up is None and fr.fn.n[j][0] != "ref"):
            return
        self.uses += 1
        d = dict(st)
        n = m.group(1)
        if d.get(n) is not True and d.get("0" + n) is not False:
            self.bad[(fr.fn.id, i)] = (fr.fn.loc(i), f"`{n}` is used though it may be null; {fr.chain()}")

    def look(self, fr, st, i):
        x = fr.fn.n[i]
        ty = lambda j: str(fr.fn.n[j][2][-1]) if fr.fn.n[j][0] in ("ref", "mem") and fr.fn.n[j][2] else ""
        if x[0] == "un" and x[2] == "*" or x[0] in ("mem", "index", "sub") and x[3]:
            if "*" in ty(x[3][0]):
                self.use(fr, st, x[3][0], i)
        elif x[0] == "call" and x[2]["k"] == "m" and fr.fn.obj(i) is not None and "*" in ty(fr.fn.obj(i)):
            self.use(fr, st, fr.fn.obj(i), i)

    def call(self, fr, st, i, inf):
        self.look(fr, st, i)
        return super().call(fr, st, i, inf)

    def element(self, fr, st, i):
        if isinstance(i, int):
            self.look(fr, st, i)
        return super().element(fr, st, i)


class Codes(PathFacts):
    """what is returned after an exception was caught, and on which truth of a condition"""

    def __init__(self, prog, track, judge, events=(), allow=None):
        super().__init__(prog, track, events=events, allow=allow, boolean=False)
        self.judge = judge
        self.n = 0

    def interesting(self, fn):
        return True

    def pick(self, fr, st, i):
        """the texts that node i may denote on this path"""
        x = fr.fn.n[i]
        while x[0] in ("cast", "paren") and x[3]:
            i = x[3][-1]
            x = fr.fn.n[i]
        if x[0] == "cond":
            out = []
            for v, k in ((True, 1), (False, 2)):
                if self.facts(self.sym.formula(fr.fn, x[3][0], fr.env, v), st) is not None:
                    for t, q in self.pick(fr, st, x[3][k]):
                        f = self.facts(self.sym.formula(fr.fn, x[3][0], fr.env, v), st)
                        n = self.add(st, sorted(f))
                        if n is not None:
                            out.append((t, n))
            return out
        s = self.sym.r(fr.fn, i, fr.env)
        return [(expand(self.sym, fr.fn, s, fr.env), st)]

    def element(self, fr, st, i):
        if isinstance(i, int) and fr.fn.n[i][0] == "catch" and fr.up is None:
            return (frozenset(dict(st, caught=True).items()),)
        if isinstance(i, int) and fr.fn.n[i][0] == "return" and fr.up is None and fr.fn.n[i][3]:
            for t, q in self.pick(fr, st, fr.fn.n[i][3][0]):
                self.n += 1
                m = self.judge(t, dict(q))
                if m:
                    self.bad[(fr.fn.id, i, m)] = (fr.fn.loc(i), m)
            return None
        return super().element(fr, st, i)


def run(ctx):
    p = ctx.p
    sym = Sym(p)
    api = sorted([f for f in p.fns.values() if f.d.get("externC") and f.kind == "fn" and FILE.search(f.file) and f.blocks], key=lambda g: g.id)
    ctx.need(len(api) > 20, "the C interface has lost its functions")
    near = lambda g: bool(FILE.search(g.file))

    # 1. nothing that may throw is outside of a handler for everything
    memo = {}

    def total(f, seen=()):
        if f.id in memo:
            return memo[f.id]
        if f.id in seen or not f.blocks:
            return None
        out = None
        for i, x in enumerate(f.n):
            if x[0] not in ("call", "new", "icall", "throw", "delete"):
                continue
            # inside a try with a handler for everything?
            prot = hand = False
            child = i
            for a in f.ancestors(i):
                y = f.n[a]
                if y[0] == "try":
                    if y[3] and child == y[3][0] and any(f.n[c][0] == "catch" and f.n[c][2][0] == "..." for c in y[3][1:]):
                        prot = True
                if y[0] == "catch":
                    hand = True
                child = a
            if prot:
                continue
            if x[0] == "throw":
                out = f"{f.loc(i)}: throws"
            elif x[0] == "icall":
                out = None if hand else f"{f.loc(i)}: calls through a pointer"
            elif x[0] == "delete":
                out = None
            else:
                inf = x[2]
                if inf.get("nx") or QUIET.search(inf["q"]) or inf["q"].startswith("std::") and inf["q"].endswith("<ctor>") and "function" in inf["q"]:
                    continue
                gs = [p.fns[k] for k in ([inf["id"]] if inf["id"] in p.fns else [])]
                if not gs:
                    if re.match(r"^\(?lambda", inf["q"]) or inf["q"].endswith("<ctor>") and ("lambda" in inf["q"] or "lambda" in inf.get("t", "")):
                        continue
                    out = f"{f.loc(i)}: {inf['q']} may throw"
                else:
                    w = total(gs[0], seen + (f.id,))
                    if w:
                        out = w
            if out:
                break
        memo[f.id] = out
        return out

    for f in api:
        w = total(f)
        ctx.ob("escape", f"{f.q}: no exception leaves it", w is None, f.loc(), w or "every call that may throw is below a handler for everything")
        ctx.functions.add(f.id)
        ret = f.d.get("ret")
        ctx.ob("escape", f"{f.q}: reports through its result", ret == "int" or ret == "const char *" and f.q == "fdb_error_string", f.loc(), ret)

    # 2. handlers
    wraps = {}
    for f in api:
        for i, inf in f.calls():
            if inf["id"] in p.fns and any(x[0] == "try" for x in p.fns[inf["id"]].n):
                wraps[inf["id"]] = p.fns[inf["id"]]
        if any(x[0] == "try" for x in f.n):
            wraps[f.id] = f
    for e in p.enums:
        if e["q"].endswith("FdbErrorValues"):
            v = dict((x[0], int(x[1])) for x in (e["v"].items() if isinstance(e.get("v"), dict) else e.get("values") or e.get("v") or e.get("c") or []))
            ctx.ob("code", "the codes are distinct and only success is zero", len(v) >= 4 and len(set(v.values())) == len(v) and [k for k in v if v[k] == 0] == ["FDB_SUCCESS"], "src/fdb5/api/fdb_c.h", str(v))
    OKC = re.compile(r"^(FDB_SUCCESS|0|.*FDB_SUCCESS)$")
    for w in sorted(wraps.values(), key=lambda g: g.id):
        def judge(t, d):
            if d.get("caught") and (OKC.match(t) or not re.match(r"^(-?[1-9]\d*|\w*FDB_ERROR_\w+)$", t)):
                return f"an exception is answered with `{t}`"
            if d.get("caught") and not d.get("msg"):
                return "an exception is caught and its description is not kept"

        r = Codes(p, {}, judge, events={"msg": [CallPred(r"basic_string::(operator=|assign)$")]}, allow=near)
        r.exceptions = True
        Engine(p, r).run(w, frozenset(), None)
        ctx.count(r)
        b = sorted(r.bad.values())
        caught = any(x[0] == "catch" for x in w.n)
        ctx.ob("code", f"{w.id}: an exception becomes an error code with a description", not b and caught and r.n > 1, b[0][0] if b else w.loc(), b[0][1] if b else f"{r.n} return state(s)")
        # ordinary end: the code of the function that was wrapped
        for i, x in enumerate(w.n):
            if x[0] == "return" and x[3] and not any(w.n[a][0] == "catch" for a in w.ancestors(i)):
                t = expand(sym, w, sym.r(w, x[3][0]))
                want_int = "std::function<int" in w.id
                cid = " ".join(inf["id"] for j, inf in w.calls() if j in set(w.walk(x[3][0])))
                if want_int:
                    ctx.ob("code", f"{w.id}: the code of the function is the code returned", "std::function<int" in cid or "operator()" in cid, w.loc(i), cid or t)
    for f in api:
        for g in p.lambdas_of(f):
            g = p.fns[g] if isinstance(g, str) else g
            if g.kind != "lambda" or g.d.get("ret") == "void":
                continue
            ids = [inf["id"] for _, inf in f.calls() if inf["id"] in wraps]
            ctx.ob("code", f"{f.q}: the code computed is the code returned", any("std::function<int" in k for k in ids), f.loc(), str(ids))
    for f in [g for g in p.fns.values() if g.name == "innerWrapFn" and g.blocks and FILE.search(g.file)]:
        rets = [expand(sym, f, sym.r(f, x[3][0])) for x in f.n if x[0] == "return" and x[3]]
        if "std::function<int" in f.id:
            ctx.ob("code", f"{f.id}: returns what the function returns", bool(rets) and all("operator()" in t or "param:" in t for t in rets), f.loc(), str(rets))
        else:
            ctx.ob("code", f"{f.id}: success once the function is through", bool(rets) and all(OKC.match(t) for t in rets) and any("operator()" in inf["q"] for _, inf in f.calls()), f.loc(), str(rets))
    # 3. pointers
    for f in api:
        names = [x[0] for x in f.params if "*" in x[2]]
        names = [n for n in names if n]
        if not names:
            continue
        roots = [f] + [g for g in (p.fns[k] if isinstance(k, str) else k for k in p.lambdas_of(f)) if g.kind == "lambda"]
        bad, uses = [], 0
        for g in roots:
            r = Deref(p, names, near)
            Engine(p, r).run(g, frozenset(), None)
            ctx.count(r)
            bad += sorted(r.bad.values())
            uses += r.uses
        if uses:
            ctx.ob("null", f"{f.q}: a null pointer is detected before it is used", not bad, bad[0][0] if bad else f.loc(), bad[0][1] if bad else f"{uses} use(s)")
    # 4. the end of an iteration
    for f in sorted(p.fns.values(), key=lambda g: g.id):
        if not (FILE.search(f.file) and f.kind == "method" and f.name == "next" and f.d.get("ret") == "int" and f.blocks):
            continue
        if any(last(inf["q"]) == "next" and not FILE.search(p.fns[inf["id"]].file if inf["id"] in p.fns else "") for _, inf in f.calls()):
            def judge(t, d):
                if d.get("more") is True and not OKC.match(t):
                    return f"an element is answered with `{t}`"
                if d.get("more") is not True and not re.search("FDB_ITERATION_COMPLETE$", t):
                    return f"the end is answered with `{t}`"

            r = Codes(p, {"more": r"\.next\(|validEl_"}, judge, allow=near)
            Engine(p, r).run(f, frozenset(), None)
            ctx.count(r)
            b = sorted(r.bad.values())
            ctx.ob("end", f"{f.q}: the end has its own code", not b and r.n > 1, b[0][0] if b else f.loc(), b[0][1] if b else f"{r.n} return state(s)")
    for f in api:
        if not re.search(r"_next(_\w+)?$", f.q):
            continue
        for g in (p.fns[k] if isinstance(k, str) else k for k in p.lambdas_of(f)):
            if g.kind != "lambda":
                continue
            rets = [expand(sym, g, sym.r(g, x[3][0])) for x in g.n if x[0] == "return" and x[3]]
            ctx.ob("end", f"{f.q}: passes the code of the iterator on", bool(rets) and all(re.search(r"\.next\(", t) for t in rets), g.loc(), str(rets))
    for n, fn in (("attrs", "a list element is used only while there is one"), ("key", "a list element is used only while there is one")):
        for f in [g for g in p.fns.values() if g.q == "fdb_listiterator_t::" + n and g.blocks]:
            from vt.lib import ordered
            ordered(ctx, "end", f, [], [CallPred(r"^fdb5::ListElement::|^fdb5::FieldLocation::")], fn, sanction=[(r"validEl_$", True)])
    # 5. destructors that throw end the process
    def chain(cls, seen):
        """destructors run when an object of the class is destroyed"""
        if cls in seen or cls not in p.classes:
            return
        seen.add(cls)
        for f in p.fns.values():
            if f.kind == "dtor" and f.cls == cls and f.blocks:
                yield f
        for b in p.superclasses(cls):
            yield from chain(b, seen)

    THROWS = re.compile(r"::(flush|close|sync)$")
    for f in api:
        for g in [f] + [p.fns[k] if isinstance(k, str) else k for k in p.lambdas_of(f)]:
            for i, x in enumerate(g.n):
                if x[0] != "delete":
                    continue
                bad = []
                for dt in chain(str(x[2]).replace("const ", "").strip(" *"), set()):
                    for j, inf in dt.calls():
                        # done before, where the failure can be reported: nothing is left to do
                        done = any(k < i and e["q"] == inf["q"] and not any(g.n[a][0] in ("if", "cond", "try", "while", "for") for a in g.ancestors(k)) for k, e in g.calls())
                        if not done and THROWS.search(inf["q"]) and inf["q"].startswith("fdb5::") and not inf.get("nx") and not any(dt.n[a][0] == "try" for a in dt.ancestors(j)):
                            bad.append(f"{dt.q} calls {inf['q']} at {dt.loc(j)} and cannot report its failure")
                ctx.ob("destroy", f"{f.q}: destroying the object cannot end the process", not bad, g.loc(i), "; ".join(bad))
