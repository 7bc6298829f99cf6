"""Static decision of "lock names, values and files agree across tools, library, server and bindings": one table of kinds, compared
with every place that spells it out."""
import re

from vt import bind
from vt.lib import AssignPred, CallPred, case_enums, pathfacts
from vt.prog import Sym

TECHNIQUE = "comparison of the compiler's enumerations and initialised tables with the bindings' declarations and with the tools, and path facts of the functions that translate between names, flags, kinds and files"
ASSUMPTIONS = ["pybind11 enumerations convert by the declared pairs", "Python's enum module numbers auto() members as documented"]
FLOORS = {"value": 2, "file": 5, "tool": 8, "binding": 2}

CI = "fdb5::ControlIdentifier"
CA = "fdb5::ControlAction"
# names, values and marker files are those of the released versions: they are on disk and on the wire
VALUES = {CI: {"None": 0, "List": 1, "Retrieve": 2, "Archive": 4, "Wipe": 8, "UniqueRoot": 16}, CA: {"None": 0, "Disable": 1, "Enable": 2}}
FILES = {"List": "list.lock", "Retrieve": "retrieve.lock", "Archive": "archive.lock", "Wipe": "wipe.lock", "UniqueRoot": "duplicates.allow"}
WORDS = {"list": "List", "retrieve": "Retrieve", "archive": "Archive", "wipe": "Wipe", "multi-root": "UniqueRoot"}


def consts(p, nodes, root):
    """the strings and enumerators below a node of an initialiser, in order; names of constants are resolved"""
    out = []

    def go(i):
        x = nodes[i]
        if x[0] == "str":
            out.append(("s", x[2]))
        elif x[0] == "ref" and x[2][1] == "enum":
            out.append(("e", x[2][2]))
        elif x[0] == "ref":
            for g in p.globals:
                if g["q"] == x[2][2]:
                    out.extend(consts(p, g["n"], g["root"]))
                    break
        for c in x[3] if len(x) > 3 and x[3] else ():
            if isinstance(c, int) and c >= 0:
                go(c)

    go(root)
    return out


def run(ctx):
    p = ctx.p
    F = p.find
    sym = Sym(p)
    enums = {e["q"]: e for e in p.enums}

    # 1. values
    for q, want in VALUES.items():
        e = enums.get(q)
        ctx.need(e, f"no enumeration {q}")
        got = {n: int(v) for n, v in e["v"]}
        bad = sorted(f"{n}={got.get(n)} (released: {want.get(n)})" for n in set(got) | set(want) if n in want and got.get(n) != want[n])
        ctx.ob("value", q, not bad, f"src/{e['file']}:{e['line']}", ", ".join(bad) or f"{len(want)} values as released")
        vals = sorted(got.values())
        new = set(got) - set(want)
        dup = len(set(vals)) != len(vals) or any(got[n] & (got[n] - 1) for n in new if q == CI)
        ctx.ob("value", q + " distinct", not dup, f"src/{e['file']}:{e['line']}", "two kinds share a value or a bit" if dup else "each kind has a value of its own")
    kinds = sorted(n for n, v in enums[CI]["v"] if int(v))

    # 2. the list of all kinds, and the table of marker files
    G = {g["q"]: g for g in p.globals}
    g = G.get("fdb5::ControlIdentifierList")
    ctx.need(g, "no fdb5::ControlIdentifierList")
    names = [v.rsplit("::", 1)[-1] for t, v in consts(p, g["n"], g["root"]) if t == "e"]
    ctx.ob("enumerate", "fdb5::ControlIdentifierList", sorted(names) == kinds, f"src/{g['file']}:{g['line']}",
           "each kind exactly once" if sorted(names) == kinds else f"lists {names}, the kinds are {kinds}")
    g = G.get("fdb5::controlfile_lookup")
    ctx.need(g, "no fdb5::controlfile_lookup")
    table = {}
    for i, x in enumerate(g["n"]):
        if x[0] == "new" and x[2]["q"].startswith("std::pair::"):
            c = consts(p, g["n"], i)
            e = [v for t, v in c if t == "e"]
            s = [v for t, v in c if t == "s"]
            if len(e) == 1 and len(s) == 1:
                table.setdefault(e[0].rsplit("::", 1)[-1], []).append(s[0])
    ctx.need(table, "fdb5::controlfile_lookup could not be read")
    for k in sorted(set(kinds) | set(table)):
        want = FILES.get(k)
        t = table.get(k, [])
        ok = len(t) == 1 and (want is None or t[0] == want) and sum(t[0] in v for v in table.values()) == 1
        ctx.ob("file", k, ok, f"src/{g['file']}:{g['line']}", f"marker file {t[0]}" if ok else f"marker file {t or 'missing'} (released: {want})")

    # 3. all marker files of a database are known to be its own
    for f in F("fdb5::TocHandler::lockfilePaths"):
        got, seen = set(), set()
        todo = [f]
        while todo:
            h = todo.pop()
            if h.id in seen:
                continue
            seen.add(h.id)
            for x in h.n:
                if x[0] == "str" and x[2] in FILES.values():
                    got.add(x[2])
                if x[0] == "ref" and len(x[2]) > 2 and x[2][2] in G:
                    got |= {v for t, v in consts(p, G[x[2][2]]["n"], G[x[2][2]]["root"]) if t == "s"}
                    if x[2][2] == "fdb5::ControlIdentifierList":
                        got |= {v[0] for v in table.values()}
            for i, inf in h.calls():
                for c in p.targets(inf, None):
                    c = p.fns.get(c) if isinstance(c, str) else c
                    if c is not None and c.cls in (f.cls, "") and c.file == f.file:
                        todo.append(c)
            for la in p.lambdas_of(h):
                todo.append(p.fns[la] if isinstance(la, str) else la)
        miss = sorted(v[0] for v in table.values() if v[0] not in got)
        ctx.ob("enumerate", f.q, not miss, f.loc(), f"does not know {', '.join(miss)}: the file is then foreign in its own database, which a wipe refuses to delete" if miss else "every marker file is looked for")

    # 4. switching: the file of that very kind is created and removed
    LOOK = r"controlfile_lookup\.(find|at)\(elem\(param:\w+\)\)"
    for f in F("fdb5::TocHandler::control"):
        own = lambda g, c=f.cls: g.cls == c or not g.cls
        for act, fn, other in (("Disable", r"::createControlFile$", r"::removeControlFile$"), ("Enable", r"::removeControlFile$", r"::createControlFile$")):

            def case(rule, fr, sw, label, a=act):
                e = case_enums(fr, label)
                return None if not e else any(x.endswith("ControlAction::" + a) for x in e)
            NEXT = [CallPred(r"ControlIdentifierIterator::operator\+\+$")]
            def at(d, fr, i, a=act):
                if d.get("act") and not d.get("do"):
                    return f"a kind is not switched when asked to ({a})"
            def wrong(d, fr, i, a=act):
                if d.get("act") is True:
                    return f"the opposite is done ({a})"
            track = {"act": rf"^(fdb5::ControlAction::{act}==param:\w+|param:\w+==fdb5::ControlAction::{act})$"}
            pathfacts(ctx, "switch", f, track, f"{act} acts on the file of each kind", events={"do": [CallPred(fn, args={0: LOOK})]}, kills=[(NEXT, ["do", "act"])],
                      at=[(n, at) for n in NEXT] + [(CallPred(other), wrong)], cases={"act": case}, allow=own, need_hits=True)
    paths = {}
    for q in ("fdb5::TocHandler::createControlFile", "fdb5::TocHandler::removeControlFile"):
        for f in p.byq.get(q, []):
            own = lambda g, c=f.cls: g.cls == c or not g.cls
            paths[q] = any(inf["q"].endswith("::fullControlFilePath") and "param:" in sym.r(f, f.args(i)[0]) for i, inf in f.calls())
            ctx.ob("switch", f.q + ": acts on the path that is looked up", paths[q], f.loc(), "fullControlFilePath of the name given" if paths[q] else "acts on another path")

    # 5. the state reported for a database has every kind
    n = 0
    for f in F("fdb5::ControlElement::<ctor>"):
        if not any("Catalogue" in x[2] for x in f.params):
            continue
        n += 1
        E = [CallPred(r"ControlIdentifiers::operator\|=$", obj=r"^this\.controlIdentifiers$", args={0: r"^elem\(fdb5::ControlIdentifierList\)$"})]
        def at(d, fr, i):
            if d.get("en") is not False:
                return "a kind that is not locked is reported as locked"
        NEXT = [AssignPred(r"ControlIdentifierList|^local:", None, ("++", "p++", "+="))]
        def nxt(d, fr, i):
            if d.get("en") is False and not d.get("add"):
                return "a locked kind is not reported"
        pathfacts(ctx, "switch", f, {"en": r"\benabled\(elem\(fdb5::ControlIdentifierList\)\)$"}, "reports exactly the kinds that are locked", events={"add": E},
                  at=[(e, at) for e in E] + [(e, nxt) for e in NEXT], kills=[(NEXT, ["en", "add"])], need_hits=True)

    # 6. command-line tools: option -> flag -> kind
    for f in F("fdb5::tools::FDBLock::init"):
        flags = {}
        for i, inf in f.calls():
            if inf["q"].rsplit("::", 1)[-1] == "get" and len(f.args(i)) == 2:
                m = re.search(r'"([\w-]+)"', sym.r(f, f.args(i)[0]))
                t = re.match(r"^this\.(\w+)$", sym.r(f, f.args(i)[1]))
                if m and t and m.group(1) in WORDS:
                    flags[m.group(1)] = t.group(1)
        for w in ("list", "retrieve", "archive", "wipe"):
            ctx.ob("tool", f"{f.q}: --{w} has a flag of its own", w in flags and list(flags.values()).count(flags[w]) == 1, f.loc(), f"stored in {flags.get(w)}")
    for f in F("fdb5::tools::FDBLock::execute"):
        own = lambda g, c=f.cls: g.cls == c
        C = CallPred(r"^fdb5::FDB::control$")
        for w, fl in sorted(flags.items()):
            k = WORDS[w]
            A = CallPred(r"ControlIdentifiers::operator\|=?$", args={0: rf"^{CI}::{k}$"})
            def at(d, fr, i, w=w):
                if d.get("f") is True and not d.get("add"):
                    return f"--{w} is given but this kind is not switched"
                if d.get("add") and d.get("f") is not True:
                    return f"this kind is switched without --{w}"
            pathfacts(ctx, "tool", f, {"f": rf"^this\.{fl}$"}, f"--{w} switches {k}", events={"add": [A]}, at=[(C, at)], allow=own, need_hits=True)
        def at(d, fr, i):
            a = sym.r(fr.fn, fr.fn.args(i)[1], fr.env)
            if not re.match(rf"^\(this\.unlock_\?{CA}::Enable:{CA}::Disable\)$", a):
                if d.get("un") is True and a != CA + "::Enable" or d.get("un") is False and a != CA + "::Disable" or d.get("un") is None:
                    if not (d.get("u1") and d.get("un") is True or d.get("u0") and d.get("un") is False):
                        return f"the action is {a}"
        V = [AssignPred(r"^local:", rf"^{CA}::Enable$")], [AssignPred(r"^local:", rf"^{CA}::Disable$")]
        pathfacts(ctx, "tool", f, {"un": r"^this\.unlock_$"}, "unlocking enables and locking disables", aevents={"u1": V[0], "u0": V[1]}, at=[(C, at)], allow=own, need_hits=True)
    for cls in ("FDBLock", "FDBStatus"):
        for f in sorted(p.fns.values(), key=lambda g: g.id):
            if not (f.file.startswith("fdb5/tools/") and f.q.endswith(f"{cls}::execute")):
                continue
            own = lambda g, c=f.cls: g.cls == c
            for w, k in WORDS.items():
                P = CallPred(r"^std::operator<<$", args={1: rf'^"\s*{w}:'})
                def at(d, fr, i, k=k):
                    if d.get("locked") is not True:
                        return f"printed although {k} is not known to be locked"
                pathfacts(ctx, "tool", f, {"locked": rf"&{CI}::{k}\)$|{CI}::{k}&"}, f'"{w}" is printed for {k}', at=[(P, at)], allow=own, need_hits=True)

    # 7. bindings
    for ty, name, calls, ln in bind.chains("src/pyfdb_bindings/bindings.cc", r"(?:native_)?enum_?"):
        q = ty if ty in enums else "fdb5::" + ty.rsplit("::", 1)[-1]
        if q not in VALUES:
            continue
        pairs = [(a[0].strip('"'), a[1]) for m, a, _ in calls if m == "value" and len(a) >= 2]
        got = {n: re.sub(r"^.*::", "", v) for n, v in pairs}
        want = {n.upper(): n for n, _ in enums[q]["v"]}
        ctx.ob("binding", f"Python enumeration {name}", got == want and len(pairs) == len(got), f"src/pyfdb_bindings/bindings.cc:{ln}", f"{len(got)} members" if got == want else f"binds {got}, the library has {want}")
    py = bind.pyclasses("src/pyfdb/pyfdb_type.py")
    for q in VALUES:
        name = q.rsplit("::", 1)[-1]
        ctx.need(name in py, f"no Python class {name}")
        got = bind.pyenum(py[name])
        want = {n.upper(): int(v) for n, v in enums[q]["v"]}
        ctx.ob("binding", f"Python class {name}", got == want, f"src/pyfdb/pyfdb_type.py:{py[name].lineno}", f"{len(got)} members with the library's values" if got == want else f"{got} instead of {want}")
    for name, (got, ln) in bind.rustenums("rust/crates/fdb-sys/src/lib.rs").items():
        q = "fdb5::" + name
        if q in VALUES:
            want = {n: int(v) for n, v in enums[q]["v"]}
            ctx.ob("binding", f"Rust enumeration {name}", got == want, f"rust/crates/fdb-sys/src/lib.rs:{ln}", f"{len(got)} members with the library's values" if got == want else f"{got} instead of {want}")
