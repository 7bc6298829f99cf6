"""Static decision of "backends, location kinds and types are registered under unique, matching names": the registrations made by the
program's initialised globals against the released names (they are stored in schemas, indexes, configurations and messages), and the
factories' add and lookup functions."""
import re

from vt.lib import AssignPred, CallPred, pathfacts
from vt.prog import Sym

TECHNIQUE = "extraction of every registration from the initialisers of the program's globals, comparison with the released name tables and with what the registered classes say of themselves; path facts of the factories' registration and lookup functions"
ASSUMPTIONS = ["the eckit object factory finds a Reanimator by the name in its ClassSpec"]
FLOORS = {"released": 40, "unique": 6, "self": 20, "lookup": 8}

# (family, name) -> class, as released
RELEASED = {
    "FDBBuilder": {"local": "LocalFDB", "catalogue": "LocalFDB", "remote": "RemoteFDB", "select": "SelectFDB", "random": "RandomFDBBuilder"},
    "CatalogueReaderBuilder": {"toc": "TocCatalogueReader", "daos": "DaosCatalogueReader", "remote": "RemoteCatalogue"},
    "CatalogueWriterBuilder": {"toc": "TocCatalogueWriter", "daos": "DaosCatalogueWriter", "remote": "RemoteCatalogue"},
    "StoreBuilder": {"file": "TocStore", "daos": "DaosStore", "remote": "RemoteStore"},
    "EngineBuilder": {"toc": "TocEngine", "daos": "DaosEngine"},
    "FieldLocationBuilder": {"file": "TocFieldLocation", "daos": "DaosFieldLocation", "fdb": "RemoteFieldLocation"},
    "BTreeIndexBuilder": {"BTreeIndex": "BTreeIndex_32_65536_FieldRefReduced", "BTreeIndex64": "BTreeIndex_64_65536_FieldRefReduced", "PointDBIndex": "BTreeIndex_32_65536_FieldRefFull",
                          "BTreeIndex4MB": "BTreeIndex_32_4194304_FieldRefReduced"},
    "FileSpaceHandlerRegister": {"Default": "First", "First": "First", "LeastUsed": "LeastUsed", "LeastUsedPercent": "LeastUsedPercent", "RoundRobin": "RoundRobin", "PureRandom": "Random",
                                 "WeightedRandom": "WeightedRandom", "WeightedRandomPercent": "WeightedRandomPercent", "expver": "ExpverFileSpaceHandler", "envvar": "EnvVarFileSpaceHandler", "Random": "Random"},
    "TypeBuilder": {"First3": "TypeAbbreviation", "ClimateDaily": "TypeClimateDaily", "ClimateMonthly": "TypeClimateMonthly", "Date": "TypeDate", "Default": "TypeDefault", "Double": "TypeDouble",
                    "Expver": "TypeExpver", "Grid": "TypeGrid", "Ignore": "TypeIgnore", "Integer": "TypeInteger", "Month": "TypeMonth", "MonthOfDate": "TypeMonthOfDate", "Param": "TypeParam",
                    "ParamID": "TypeParamStrict", "Step": "TypeStep", "Time": "TypeTime", "Year": "TypeYear", "YearMonth": "TypeYearMonth"},
}
SCHEMES = {"file": "TocStore", "daos": "DaosStore", "fdb": "RemoteStore"}
# names of objects that are sent over the network or stored
SPECS = {"DaosFieldLocation", "TocFieldLocation", "RemoteFieldLocation", "SingleGribMungePartFileHandle", "ExcludeAll", "MatchAlways", "MatchAny", "MatchHidden", "MatchOptional", "MatchValue",
         "Predicate", "RuleDatum", "RuleIndex", "RuleDatabase", "Schema", "TocIndexLocation", "TocDbStats", "TocIndexStats", "TypesRegistry"}


def short(c):
    return c.rsplit("::", 1)[-1]


class Names:
    def __init__(self, p):
        self.p = p
        self.G = {g["q"]: g for g in p.globals}

    def strings(self, nodes, i, depth=0):
        """string constants an initialiser expression can denote (through constants and constant functions), in order"""
        if depth > 8 or i is None or i < 0:
            return []
        x = nodes[i]
        if x[0] == "str":
            return [x[2]]
        if x[0] == "ref" and x[2][1] in ("global", "smember", "local") and x[2][2] in self.G:
            g = self.G[x[2][2]]
            return self.strings(g["n"], g["root"], depth + 1)
        if x[0] == "call":
            f = self.p.fns.get(x[2]["id"]) or next(iter(self.p.byq.get(x[2]["q"], [])), None)
            if f is not None and not f.params:
                return self.returned(f, depth + 1)
        out = []
        for c in x[3] or () if len(x) > 3 else ():
            if isinstance(c, int):
                out += self.strings(nodes, c, depth)
        return out

    def returned(self, f, depth=0):
        out = []
        for x in f.n:
            if x[0] == "return" and x[3]:
                for s in self.strings(f.n, x[3][0], depth + 1):
                    if s not in out:
                        out.append(s)
        return out

    def says(self, cls, method):
        """what a method without parameters of the class (or of its closest base) returns"""
        seen, todo = set(), [cls]
        while todo:
            c = todo.pop(0)
            if c in seen:
                continue
            seen.add(c)
            for f in self.p.byq.get(f"{c}::{method}", []):
                if not f.params:
                    return self.returned(f), f
            todo += list(self.p.classes.get(c, {}).get("bases", []) or [])
        return [], None


def run(ctx):
    p = ctx.p
    sym = Sym(p)
    N = Names(p)

    # 1. what is registered
    fam = {}
    where = {}
    schemes = {}
    for g in p.globals:
        t = re.sub(r"^(static |const )*", "", g["t"])
        m = re.match(r"^fdb5::(?:\w+::)*(\w+)<(.*)>$", t)
        kind, cls = (m.group(1), m.group(2)) if m else (None, None)
        names = []
        if kind is None or kind not in RELEASED:
            # a registrar of its own: its constructor hands its name to the base
            base = [k for k in RELEASED if any(short(b) in (k + "Base", k) for b in p.superclasses(t))] if t in p.classes else []
            if not base:
                continue
            kind, cls = base[0], t
            for f in p.byq.get(t + "::<ctor>", []):
                for e in f.inits:
                    if e[0] == "base" and isinstance(e[2], int):
                        names += N.strings(f.n, e[2])[:1]
        root = g["n"][g["root"]] if g["n"] else None
        if root is None:
            continue
        args = root[3] if root[0] == "new" else []
        loc = f"src/{g['file']}:{g['line']}"
        if kind == "EngineBuilder":
            names, f = N.says(cls, "name")
        elif not names and args:
            names = N.strings(g["n"], args[0])
        ctx.need(names or "fam/" in g["file"], f"the name registered at {loc} could not be determined")
        for n in names[:1]:
            fam.setdefault(kind, {}).setdefault(n, []).append(cls)
            where[(kind, n)] = loc
            if kind == "StoreBuilder":
                ss = N.strings(g["n"], args[1]) if len(args) > 1 else [n]
                for s in ss:
                    schemes.setdefault(s, []).append(cls)

    for kind, want in sorted(RELEASED.items()):
        ctx.need(fam.get(kind), f"no registrations of kind {kind} found")
        for n, c in sorted(want.items()):
            got = [short(x) for x in fam[kind].get(n, [])]
            alias = {short(x) for g in p.globals for x in [g["t"]]}
            ok = bool(got) and (got[0] == c or kind == "BTreeIndexBuilder" and got[0].startswith("BTreeIndex<"))
            ctx.ob("released", f"{kind} {n}", ok, where.get((kind, n), next(v for (k, _), v in sorted(where.items()) if k == kind)), f"-> {', '.join(got)}" if ok else f"is {', '.join(got) or 'not registered'}; stored data and messages expect {c}")
        dup = sorted(n for n, cs in fam[kind].items() if len(cs) > 1)
        ctx.ob("unique", kind, not dup, where.get((kind, dup[0]), "") if dup else next(iter(v for (k, _), v in where.items() if k == kind)), f"registered twice: {dup}" if dup else f"{len(fam[kind])} names")
    for s, c in sorted(SCHEMES.items()):
        got = [short(x) for x in schemes.get(s, [])]
        ctx.ob("released", f"store for locations of scheme {s}", got == [c], where.get(("FieldLocationBuilder", s), "src/fdb5/database/Store.cc"), f"-> {', '.join(got)}" if got == [c] else f"served by {got or 'nothing'}, was {c}")
    for s in sorted(schemes):
        ctx.ob("match", f"scheme {s}", s in fam["FieldLocationBuilder"] or s in fam["StoreBuilder"] and s not in SCHEMES, where.get(("FieldLocationBuilder", s), ""),
               "locations of this scheme can be decoded" if s in fam["FieldLocationBuilder"] else "a store takes locations of this scheme but none can be built")

    # 2. a registered class calls itself what it is registered as
    for kind, meth in (("StoreBuilder", "type"), ("CatalogueReaderBuilder", "type"), ("CatalogueWriterBuilder", "type")):
        for n, cs in sorted(fam[kind].items()):
            for c in cs:
                says, f = N.says(c, meth)
                if f is None or not says:
                    continue
                ctx.ob("self", f"{short(c)}::{meth} ({kind})", says == [n], f.loc(), f"{says[0]}" if says == [n] else f"says {says} but is registered as {n}")
    for n, cs in sorted(fam["EngineBuilder"].items()):
        ok = n in fam["CatalogueReaderBuilder"] and n in fam["CatalogueWriterBuilder"]
        ctx.ob("match", f"engine {n}", ok, where[("EngineBuilder", n)], "has a reader and a writer of that name" if ok else "databases of this engine can not be opened")

    # 3. streamed classes: one name each, decoded by their own class
    specs = {}
    reans = {}
    for g in p.globals:
        if g["t"] == "eckit::ClassSpec":
            ss = [x[2] for x in g["n"] if x[0] == "str"]
            own = g["q"].rsplit("::", 1)[0]
            specs.setdefault(ss[-1] if ss else "?", []).append((own, g))
            up = [x[2]["q"].rsplit("::", 1)[0] for x in g["n"] if x[0] == "call" and x[2]["q"].endswith("::classSpec")] + \
                 [x[2][2].rsplit("::", 1)[0] for x in g["n"] if x[0] == "ref" and str(x[2][2]).endswith("classSpec")]
            bad = [u for u in up if u != own and u not in p.superclasses(own)]
            ctx.ob("self", f"{own}::classSpec_ names its own base", not bad, f"src/{g['file']}:{g['line']}", f"names {bad}" if bad else "")
        m = re.match(r"^eckit::Reanimator<(.*)>$", g["t"])
        if m:
            reans[g["q"].rsplit("::", 1)[0]] = (m.group(1), g)
    for n, l in sorted(specs.items()):
        ctx.ob("unique", f"class name {n}", len(l) == 1, f"src/{l[-1][1]['file']}:{l[-1][1]['line']}", f"used by {[o for o, _ in l]}" if len(l) > 1 else "")
    for n in sorted(SPECS):
        own = specs.get(n, [(None, None)])[0][0]
        ctx.ob("released", f"class name {n}", own in reans, f"src/{reans[own][1]['file']}:{reans[own][1]['line']}" if own in reans else "src/fdb5", f"decoded by {own}" if own in reans else "objects of this name can no longer be decoded")
    for c, (t, g) in sorted(reans.items()):
        ctx.ob("self", f"{c}::reanimator_ builds its own class", t == c, f"src/{g['file']}:{g['line']}", "" if t == c else f"builds {t}")
    for f in sorted(p.fns.values(), key=lambda g: g.id):
        m = {"reanimator": "reanimator_", "classSpec": "classSpec_"}.get(short(f.q))
        if not m or f.params or f.cls not in p.classes:
            continue
        r = {sym.r(f, x[3][0]) for x in f.n if x[0] == "return" and x[3]}
        refs = {x[2][2] for x in f.n if x[0] == "ref" and str(x[2][2]).endswith("::" + m)}
        want = f"{f.cls}::{m}"
        if not refs:
            continue
        if want not in {q for q in N.G}:
            ok = False
        else:
            ok = refs == {want}
        ctx.ob("self", f.q, ok, f.loc(), "its own" if ok else f"returns {sorted(refs)}")

    # 4. the factories: unknown names are errors, nothing is replaced silently
    MISS = {"miss": r"(^|==|[(])end\(|^0==.*\.count\(", "has": r"\b(has|contains)\(|::find\(.*\) !="}
    LOOK = [("fdb5::FDBFactory::build", 1), ("fdb5::CatalogueReaderFactory::build", 2), ("fdb5::CatalogueWriterFactory::build", 2), ("fdb5::StoreFactory::find", 1), ("fdb5::StoreFactory::findScheme", 1),
            ("fdb5::EngineRegistry::engine", 1), ("fdb5::FieldLocationFactory::build", 2), ("fdb5::BTreeIndexFactory::build", 1), ("fdb5::FileSpaceHandler::lookup", 1), ("fdb5::TypesFactory::build", 1)]
    for q, n in LOOK:
        fs = p.byq.get(q, [])
        if not fs and q.startswith("fdb5::StoreFactory"):
            continue
        ctx.need(fs, f"no definition of {q}")
        for f in fs:
            own = lambda g, f=f: g.file == f.file
            FIND = CallPred(r"^std::(map|unordered_map)::(find|count|at|contains)$")
            def check(o, d):
                if d.get("miss") is True or d.get("has") is False:
                    return "returns something for a name that is not registered"
                if d.get("miss") is None and not d.get("has") and not d.get("at"):
                    return "returns without having found the name"
            pathfacts(ctx, "lookup", f, MISS, f"({', '.join(x[0] for x in f.params)}): an unknown name is an error", events={"looked": [FIND], "at": [CallPred(r"^std::(map|unordered_map)::at$")]}, check=check, allow=own)
    ADD = ["fdb5::FDBFactory::add", "fdb5::CatalogueReaderFactory::add", "fdb5::CatalogueWriterFactory::add", "fdb5::StoreFactory::add", "fdb5::EngineRegistry::add", "fdb5::FieldLocationFactory::add",
           "fdb5::BTreeIndexFactory::<ctor>", "fdb5::FileSpaceHandler::regist", "fdb5::TypesFactory::<ctor>"]
    for q in ADD:
        ctx.need(p.byq.get(q), f"no definition of {q}")
        for f in p.byq[q]:
            own = lambda g, f=f: g.file == f.file
            def at(d, fr, i):
                if d.get("miss") is not True and d.get("has") is not False:
                    return "may replace a registration of the same name"
            INS = [CallPred(r"^std::map::(operator\[\]|insert_or_assign)$", obj=r"builders_|registry_|::m$|\bm$")]
            SOFT = [CallPred(r"^std::map::(emplace|insert|try_emplace)$", obj=r"builders_|registry_|::m$|\bm$")]
            pathfacts(ctx, "lookup", f, MISS, "a name is registered once", at=[(a, at) for a in INS], events={"ins": INS + SOFT}, allow=own, need_hits=True)
