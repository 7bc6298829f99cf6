"""Static decision of "the Python interface passes every argument through and mirrors every name": every pybind11 definition is
matched with the compiled function it registers (called method, receiver, provenance of every argument, result, handlers), and
every function of the Python packages is explored path by path with values named by their origin (arguments of the call into the
bindings, what is yielded or returned for each element, conditions under which nothing is handed over)."""
import ast
import re
import warnings

from vt import bind, pyflow
from vt.lib import CallPred, last, pathfacts, tally
from vt.prog import Sym
from vt.pyflow import Flow, Mod

TECHNIQUE = "matching of binding declarations with compiled functions (called method, provenance of every argument, returned value, handlers) and path enumeration with value provenance over the Python sources; comparison of enumerations"
ASSUMPTIONS = ["pybind11 converts arguments and results by their declared types and turns C++ exceptions into Python exceptions",
               "Python semantics of generators, enum and dict"]
FLOORS = {"binding": 60, "forward": 12, "accessor": 20}

BINDINGS = {"src/pyfdb_bindings/bindings.cc": "pyfdb_bindings/bindings.cc", "src/chunked_data_view_bindings/bindings.cc": "chunked_data_view_bindings/bindings.cc"}
IDENT = ("__repr__", "__iter__", "__str__")

# (C++ class, Python name) -> called method, where the name differs or the receiver is a member
SPECIAL = {
    ("Config", "userConfig"): r"fdb5::Config::userConfig$",
    ("Config", "json"): r"eckit::(JSON::)?operator<<$",
    ("DataHandle", "open"): r"eckit::DataHandle::openForRead$",
    ("FDBToolRequest", "mars_request"): r"fdb5::FDBToolRequest::request$",
    ("IndexAxis", "__getitem__"): r"fdb5::IndexAxis::values$",
    ("IndexAxis", "keys"): r"fdb5::IndexAxis::map$",
    ("IndexAxis", "values"): r"fdb5::IndexAxis::map$",
    ("IndexAxis", "items"): r"fdb5::IndexAxis::map$",
    ("IndexAxis", "__contains__"): r"fdb5::IndexAxis::(map|has)$",
    ("IndexAxis", "__len__"): r"fdb5::IndexAxis::map$",
    ("URI", "rawString"): r"eckit::URI::asRawString$",
    ("URI", "__repr__"): r"eckit::URI::asString$",
    ("ListElement", "uri"): r"fdb5::FieldLocation::uri$",
    ("ListElement", "data_handle"): r"fdb5::FieldLocation::dataHandle$",
    ("ControlElement", "location"): "member",
    ("ControlElement", "controlIdentifiers"): "member",
    ("ControlElement", "key"): "member",
    ("StatsElement", "index_statistics"): r"fdb5::IndexStats(Content)?::report$",
    ("StatsElement", "db_statistics"): r"fdb5::DbStats(Content)?::report$",
    ("ChunkedDataViewBuilder", "add_part"): r"chunked_data_view::ChunkedDataViewBuilder::addPart$",
    ("FixedSizeChunking", "chunk_shape"): "chunkSize",
}


def camel(n):
    a = n.split("_")
    return a[0] + "".join(x[:1].upper() + x[1:] for x in a[1:])


def defs(ctx):
    """(file, C++ class, Python name, kind, text or function, line) of everything that is registered"""
    p = ctx.p
    out = []
    for path, rel in BINDINGS.items():
        fns = sorted((f for f in p.fns.values() if f.file == rel and f.kind == "lambda"), key=lambda f: f.line)
        items = []
        for ty, name, calls, ln in bind.chains(path, "class_"):
            for meth, args, l in calls:
                if meth in ("def", "def_readwrite", "def_property_readonly", "def_static") and args:
                    items.append((l, ty, meth, args))
        items.sort(key=lambda x: x[0])
        starts = [x[0] for x in items] + [10 ** 9]
        for k, (l, ty, meth, args) in enumerate(items):
            nm = re.match(r'^"([^"]*)"$', args[0])
            cls = last(ty.replace("cdv::", "chunked_data_view::"))
            impl = None
            body = args[0] if not nm else args[1] if len(args) > 1 else ""
            if "[" in body and not re.match(r"^&\w", body):
                cand = [f for f in fns if l <= f.line < starts[k + 1] or f.line == l]
                # several definitions may stand on one line: they are told apart by their order
                same = [j for j in range(len(items)) if items[j][0] == l and "[" in " ".join(items[j][3][:2])]
                if cand:
                    impl = cand[same.index(k)] if len(same) > 1 and k in same and len(cand) > same.index(k) else cand[0]
            out.append((path, ty, cls, nm.group(1) if nm else "__init__", meth, body, impl, l))
    return out


def local_feeders(p, sym, f, name):
    """renderings of everything that is put into the local object `name` (without the local: prefix)"""
    out = []
    for g in p.family(f):
        for i, inf in g.calls():
            o = g.obj(i)
            a = list(g.args(i))
            if o is None and last(inf["q"]).startswith("operator") and a:
                o, a = a[0], a[1:]
            if o is not None and re.search(rf"\blocal:{re.escape(name)}\b", sym.r(g, o)):
                out += [sym.r(g, x) for x in a]
        for x in g.n:
            if x[0] == "assign" and re.search(rf"\blocal:{re.escape(name)}\b", sym.r(g, x[3][0])):
                out.append(sym.r(g, x[3][1]))
            if x[0] == "var" and x[2]["n"] == re.sub(r"__\d+$", "", name) and x[3]:
                out.append(sym.r(g, x[3][0]))
    return out


def depends(p, sym, f, text, rx, depth=0, seen=()):
    if re.search(rx, text):
        return True
    if depth > 3:
        return False
    for n in set(re.findall(r"\blocal:(\w+)", text)) - set(seen):
        if any(depends(p, sym, f, t, rx, depth + 1, seen + (n,)) for t in local_feeders(p, sym, f, n)):
            return True
    return False


def bindings(ctx):
    p, sym = ctx.p, Sym(ctx.p)
    seen = {}
    for path, ty, cls, name, meth, body, impl, ln in defs(ctx):
        where = f"{path}:{ln}"
        key = (cls, name)
        if meth == "def_readwrite":
            m = re.match(r"^&[\w:]*::(\w+)$", body)
            ctx.ob("binding", f"{cls}.{name}: bound to the member of the same name", bool(m) and m.group(1) == name, where, body)
            continue
        inst = f"{cls}.{name}"
        seen[inst] = seen.get(inst, 0) + 1
        if seen[inst] > 1:
            inst += f" ({seen[inst]})"
        want = SPECIAL.get(key)
        ref = re.match(r"^&(?:\w+::)*(\w+)$", body)
        if ref and impl is None:
            fn = [g for g in p.byq.get(body[1:], []) if g.file == BINDINGS[path]] or [g for g in p.fns.values() if g.file == BINDINGS[path] and last(g.q) == ref.group(1) and not g.cls]
            if fn and "::" not in body[1:].replace("cdv::", ""):
                impl = fn[0]
            else:
                got = ref.group(1)
                ok = bool(re.search(want.rstrip("$").split("::")[-1] + "$", got)) if want and want not in ("member",) else got == name or got == camel(name)
                ctx.ob("binding", f"{inst}: registers the method of the same name", ok, where, f"registers {body}")
                own = body[1:].rsplit("::", 1)[0]
                ctx.ob("binding", f"{inst}: of its own class", last(own) == cls or last(ty) == last(own), where, f"class {own}")
                continue
        if impl is None:
            continue
        f = impl
        ctx.functions.add(f.id)
        # handlers: a failure is passed on
        for g in p.family(f):
            for i, x in enumerate(g.n):
                if x[0] == "catch":
                    sub = list(g.walk(i))
                    ok = any(g.n[j][0] == "throw" for j in sub) and not any(g.n[j][0] in ("return", "continue", "break") for j in sub)
                    ctx.ob("errors", f"{inst}: a failure that is caught surfaces as an exception", ok, g.loc(i), "handler raises" if ok else "the handler ends normally: the failure looks like a result")
        ps = [a[0] for a in f.params]
        if name in IDENT and name != "__init__":
            continue
        recv = ps[0] if name != "__init__" and ps else None
        # every argument of the interface is used for the result
        rets = [sym.r(f, x[3][0]) for x in f.n if x[0] == "return" and x[3]]
        fam = p.family(f)
        used = {x[2][0] for g in fam for x in g.n if x[0] == "ref" and x[2][1] == "param"}
        for a in ps[1:] if recv else ps:
            ctx.ob("argument", f"{inst}: parameter {ps.index(a)} ({len(ps)}) is handed on", a in used, where, a)
        if name == "__init__":
            if ps:
                ok = all(any(depends(p, sym, f, t, rf"\bparam:{a}\b") for t in rets) for a in ps)
                ctx.ob("result", f"{inst}: what is built is made of every argument", ok, where, "; ".join(rets)[:200])
                build = [(i, inf) for i, inf in ((i, x[2]) for i, x in enumerate(f.n) if x[0] == "new") if last(inf["q"].replace("::<ctor>", "")) == cls and len(f.args(i)) >= 2]
                for i, inf in build:
                    args = [sym.r(f, a) for a in f.args(i)]
                    pos = [next((k for k, t in enumerate(args) if depends(p, sym, f, t, rf"\bparam:{a}\b")), None) for a in ps]
                    got = [k for k in pos if k is not None]
                    ctx.ob("argument", f"{inst}: the arguments go to the constructor in their order", got == sorted(got), f.loc(i), f"{args}")
            continue
        if name == "__next__":
            pathfacts(ctx, "next", f, {"has": rf"\bparam:{recv}\.next\("}, f"{inst}: an element is returned only if there was a next one",
                      check=lambda out, facts: None if facts.get("has") is True else "returned without a next element",
                      allow=lambda g, f=f: g.file == f.file, follow=lambda g, f=f: g.file == f.file)
            locs = [o for x in f.n if x[0] == "call" for o in [0]]
            calls = [(i, inf) for i, inf in f.calls() if last(inf["q"]) == "next"]
            args = [sym.r(f, f.args(i)[0]) for i, _ in calls if f.args(i)]
            ctx.ob("next", f"{inst}: what is returned is what was filled in", not args or all(r.split("return(")[-1].startswith(tuple(args)) or any(a in r for a in args) for r in rets), where, f"{args} {rets}"[:200])
            stops = [g.loc(i) for g in fam for i, x in enumerate(g.n) if x[0] == "throw" and any("stop_iteration" in str(g.n[j][2]) for j in g.walk(i))] or \
                    [h.loc() for h in p.fns.values() if h.file == f.file and any(x[0] == "throw" and any("stop_iteration" in str(h.n[j][2]) for j in h.walk(i)) for i, x in enumerate(h.n))]
            ctx.ob("next", f"{inst}: the end is announced as StopIteration", bool(stops), where, str(stops[:1]))
            continue
        if want == "member":
            rx = rf"\bparam:{recv}\.{name}\b"
            ctx.ob("result", f"{inst}: returns the member of the same name", bool(rets) and all(depends(p, sym, f, t, rx) for t in rets), where, "; ".join(rets)[:160])
            loopcheck(ctx, p, sym, f, inst)
            continue
        if want and re.match(r"^\w+$", want):
            ctx.ob("result", f"{inst}: returns {want}", bool(rets) and all(re.search(rf"\bparam:{recv}\.{want}\b", t) for t in rets), where, "; ".join(rets)[:160])
            continue
        rx = want or rf"(^|::){cls}::({name}|{camel(name)})$"
        pred = CallPred(rx)
        tally(ctx, "binding", f, [pred], f"{inst}: calls the method of its meaning exactly once", allow=lambda g, f=f: g.file == f.file,
              lo=0 if (cls, name) in (("ListElement", "uri"), ("ListElement", "data_handle")) else 1)
        others = []
        for g in fam:
            for i, inf in g.calls():
                q = inf["q"]
                if q.startswith("fdb5::FDB::") and cls == "FDB" and not re.search(rx, q):
                    others.append((g.loc(i), q))
        if cls == "FDB":
            ctx.ob("binding", f"{inst}: calls nothing else of the interface", not others, others[0][0] if others else where, others[0][1] if others else "")
        # arguments
        site = [(g, i, inf) for g in [f] + bodies(p, f) for i, inf in g.calls() if re.search(rx, inf["q"])]
        for g, i, inf in site[:1]:
            o = g.obj(i)
            if o is not None and g is f and cls in ("FDB", "DataHandle", "ChunkedDataView", "ChunkedDataViewBuilder"):
                ctx.ob("argument", f"{inst}: on the object it is called on", bool(re.search(rf"\bparam:{recv}\b", sym.r(g, o))), g.loc(i), sym.r(g, o))
            if cls == "StatsElement" and o is not None:
                m = {"index_statistics": "indexStatistics", "db_statistics": "dbStatistics"}[name]
                ctx.ob("argument", f"{inst}: reports {m}", m in sym.r(g, o), g.loc(i), sym.r(g, o))
            if g is not f:
                continue
            args = [sym.r(g, a) for a in g.args(i)]
            if cls == "FDB":
                for k, a in enumerate(ps[1:]):
                    t = args[k] if k < len(args) else "<absent>"
                    scalar = re.match(r"^(const )?(bool|int|(unsigned )?long|size_t|const char \*|char \*)", f.params[k + 1][2]) or "FDBToolRequest" in f.params[k + 1][2] or "ControlAction" in f.params[k + 1][2]
                    ok = t == f"param:{a}" if scalar else depends(p, sym, f, t, rf"\bparam:{a}\b")
                    ctx.ob("argument", f"{inst}: argument {k} is what the caller gave at that place", ok, g.loc(i), f"`{t}` for {a}")
            if (cls, name) == ("DataHandle", "read"):
                ok = len(args) == 2 and bool(re.search(rf"param:{ps[1]}\.request\(.*\)\.ptr$", args[0])) and bool(re.search(rf"param:{ps[1]}\.request\(.*\)\.size$", args[1]))
                ctx.ob("argument", f"{inst}: reads into the caller's buffer, as much as it holds", ok, g.loc(i), str(args))
            if (cls, name) == ("ChunkedDataViewBuilder", "add_part"):
                ctx.ob("argument", f"{inst}: request and axes are the caller's", len(args) == 3 and args[0] == f"param:{ps[1]}" and args[1] == f"param:{ps[2]}", g.loc(i), str(args)[:200])
            if (cls, name) == ("IndexAxis", "__getitem__"):
                ctx.ob("argument", f"{inst}: of the key given", args == [f"param:{ps[1]}"], g.loc(i), str(args))
        # result
        if f.d.get("ret") not in ("void", None) and cls not in ("StatsElement", "Config", "IndexAxis") and name not in ("uri", "data_handle", "at", "add_part"):
            ok = bool(rets) and all(depends(p, sym, f, t, rf"param:{recv}\b") for t in rets)
            ctx.ob("result", f"{inst}: returns what the method returned", ok, where, "; ".join(rets)[:200])
        if name in ("uri", "data_handle") and cls == "ListElement":
            pathfacts(ctx, "result", f, {"has": r"hasLocation\(\)|^param:\w+\.loc_$|bool\(param:\w+\.loc_"}, f"{inst}: nothing is returned only for an element without a location",
                      check=lambda out, facts: "an empty result for an element that may have a location" if "nullopt" in str(out) and facts.get("has") is not False else None,
                      allow=lambda g, f=f: g.file == f.file)
        loopcheck(ctx, p, sym, f, inst)
    for n in ("archive", "flush", "retrieve", "inspect", "list", "status", "wipe", "purge", "stats", "control", "axes", "enabled", "dirty", "config"):
        ctx.ob("binding", f"FDB.{n}: is registered", f"FDB.{n}" in seen, "src/pyfdb_bindings/bindings.cc:1", "")


def bodies(p, f):
    """functions of the same file that f calls"""
    out, todo = [], [f]
    while todo:
        g = todo.pop()
        for h in p.callees(g):
            h = p.fns.get(h, h) if not hasattr(h, "q") else h
            if hasattr(h, "file") and h.file == f.file and h not in out and h is not f:
                out.append(h)
                todo.append(h)
    return out


INSERT = {"push_back", "emplace_back", "emplace", "insert", "push", "operator|=", "operator=", "operator[]"}


def loopcheck(ctx, p, sym, f, inst):
    """conversion loops hand every element over, first with first and second with second"""
    for g in p.family(f):
        for i, inf in g.calls():
            if last(inf["q"]) not in ("push", "emplace", "insert") or len(g.args(i)) != 2:
                continue
            a, b = (sym.r(g, x) for x in g.args(i))
            if re.search(r"\.(first|second)$|^std::get", a + b) and re.search(r"\.first\b", a + b):
                ok = not re.search(r"\.second$", a) and not re.search(r"\.first$", b)
                ctx.ob("argument", f"{inst}: names and values keep their places", ok, g.loc(i), f"({a}, {b})"[:200])
        for i, x in enumerate(g.n):
            if x[0] in ("forrange", "for", "while"):
                sub = list(g.walk(i))
                skips = [j for j in sub if g.n[j][0] in ("continue", "break")]
                conds = [j for j in sub if g.n[j][0] == "if" and any(g.n[k][0] in ("call", "assign") and last(str((g.n[k][2] or {}).get("q", "")) if isinstance(g.n[k][2], dict) else "") in INSERT for k in g.walk(j))]
                if x[0] == "forrange":
                    inner = {g.n[j][2]["d"] for j in sub if g.n[j][0] == "var"}
                    for j in sub:
                        if g.n[j][0] == "assign" and (g.n[j][2] if isinstance(g.n[j][2], str) else (g.n[j][2] or {}).get("op", "=")) == "=":
                            l, r = g.n[j][3][0], g.n[j][3][1]
                        elif g.n[j][0] == "call" and last(g.n[j][2]["q"]) == "operator=" and g.args(j):
                            l, r = g.obj(j), g.args(j)[-1]
                        else:
                            continue
                        if l is None or g.n[l][0] != "ref" or g.n[l][2][2] in inner:
                            continue
                        L, R = sym.r(g, l), sym.r(g, r)
                        if "elem(" in R and L not in R:
                            ctx.ob("argument", f"{inst}: no element replaces the ones before it", False, g.loc(j), f"{L} = {R}"[:200])
                ctx.ob("argument", f"{inst}: every element is handed over", not skips and not conds, g.loc((skips + conds + [i])[0]), "no element is skipped" if not skips + conds else "an element may be skipped")


def conversion(ctx):
    p, sym = ctx.p, Sym(ctx.p)
    fs = [f for f in p.fns.values() if f.file == "pyfdb_bindings/bindings.cc" and f.kind != "lambda" and any(x[0] == "new" and "MarsRequest" in x[2]["q"] for x in f.n) and f.params]
    ctx.need(fs, "no conversion of a selection into a request found")
    for f in fs:
        ctx.functions.add(f.id)
        prm = f.params[0][0]
        parts = [(f, {})] + [(g, {f"param:{b[0]}": a for b, a in zip(g.params, [sym.r(f, x) for x in f.args(i)])}) for g in bodies(p, f) for i, inf in f.calls() if inf.get("id") == g.id]
        rets = [sym.r(f, x[3][0]) for x in f.n if x[0] == "return" and x[3]]
        ctx.ob("argument", f"{f.q}: the request is made of the selection", bool(rets) and all(depends(p, sym, f, t, rf"\bparam:{prm}\b") for t in rets), f.loc(), "; ".join(rets)[:160])
        loopcheck(ctx, p, sym, f, f.q)
        vals = [re.sub(r"\bparam:\w+", lambda m, e=e: e.get(m.group(), m.group()), sym.r(g, a)) for g, e in parts for i, inf in g.calls() if last(inf["q"]) in ("emplace_back", "push_back") for a in g.args(i)]
        ctx.ob("argument", f"{f.q}: every value is a value of its own keyword", bool(vals) and all(re.search(rf"elem\(elem\(param:{prm}\)\.second\)", t) for t in vals), f.loc(), str(vals)[:160])
        keys = [[sym.r(f, a) for a in f.args(i)] for i, inf in f.calls() if last(inf["q"]) in ("emplace", "insert") and len(f.args(i)) == 2]
        ctx.ob("argument", f"{f.q}: under its own name", bool(keys) and all(re.search(rf"elem\(param:{prm}\)\.first", k[0]) for k in keys), f.loc(), str(keys)[:160])


def enums(ctx):
    p = ctx.p
    byname = {e["q"]: e for e in p.enums}
    py = {}
    for f in ("src/pyfdb/pyfdb_type.py", "src/pyfdb/pyfdb_iterator.py"):
        for n, node in bind.pyclasses(f).items():
            if any("Enum" in ast.unparse(b) or "Flag" in ast.unparse(b) for b in node.bases):
                py[n] = (f, node)
    for path in BINDINGS:
        for ty, name, calls, ln in bind.chains(path, r"(?:native_)?enum_?"):
            q = ty.replace("cdv::", "chunked_data_view::")
            ctx.need(q in byname, f"enumeration {ty} is not known to the compiler")
            want = {}
            for n, v in byname[q]["v"]:
                want[re.sub(r"^(None|List|Retrieve|Archive|Wipe|UniqueRoot|Disable|Enable)$", lambda m: m.group(0).upper(), n)] = (n, v)
            got = {}
            for meth, args, l in calls:
                if meth == "value":
                    got[args[0].strip('"')] = (last(args[1]), l)
            dep = {k for k, (n, v) in want.items() if k.startswith("_")}
            ctx.ob("enum", f"{name}: every member of the library is visible", set(want) - dep == set(got), f"{path}:{ln}", f"missing {sorted(set(want) - dep - set(got))}, unknown {sorted(set(got) - set(want))}")
            for k, (n, l) in got.items():
                ctx.ob("enum", f"{name}.{k}: stands for the member of the same name", k in want and want[k][0] == n, f"{path}:{l}", n)
            if name in py:
                f, node = py[name]
                vals = bind.pyenum(node)
                ctx.ob("enum", f"{name}: the Python class has the same members and values", vals == {k: v for k, (n, v) in want.items() if k not in dep}, f"{f}:{node.lineno}", f"{vals}")
                m = Mod(f)
                for meth, rx in (("_from_raw", rf"^(cls|{name})\[{{0}}\.name\]$"), ("_to_raw", rf"^\w*{name}\[self\.name\]$")):
                    if meth not in m.methods(name):
                        continue
                    d = m.methods(name)[meth]
                    ps = [a.arg for a in d.args.args if a.arg not in ("self", "cls")]
                    r = [pyflow.s(x.out[1]) for x in Flow(m, name).run(d) if x.out and x.out[0] == "return"]
                    ctx.ob("enum", f"{name}.{meth}: translates by name", bool(r) and all(re.match(rx.replace("{0}", ps[0] if ps else ""), t) for t in r), f"{f}:{d.lineno}", str(r))


# ---------------------------------------------------------------------------------------------------------------------------
# Python

SEL = "UserInputMapper.map_selection_to_internal({1})"
REQ = "FDBToolRequest.from_internal_mars_selection(" + SEL + ").tool_request"
FORWARD = {
    "flush": ([], None), "dirty": ([], "ret"), "config": None,
    "retrieve": ([SEL], "DataHandle"), "inspect": ([SEL], "ListElement"), "list": ([REQ, "not {2}", "{3}"], "ListElement"),
    "status": ([REQ], "StatusElement"), "wipe": ([REQ, "{2}", "{3}", "{4}"], "WipeElement"), "purge": ([REQ, "{2}", "{3}"], "PurgeElement"),
    "stats": ([REQ], "StatsElement"), "control": ([REQ, "{2}._to_raw()", "listof(elem({3})._to_raw(), {3})"], "ControlElement"),
    "axes": ([REQ, "{2}"], "IndexAxis"), "enabled": (["{1}._to_raw()"], "ret"),
}
DEFAULTS = {"wipe": {"doit": "False", "porcelain": "False", "unsafe_wipe_all": "False"}, "purge": {"doit": "False", "porcelain": "False"},
            "list": {"include_masked": "False", "level": "3"}, "axes": {"level": "3"}}
GENERATORS = ("inspect", "list", "status", "wipe", "purge", "stats", "control")


def calls_of(path, prefix):
    return [e for e in path.events if e[0] == "call" and e[1].startswith(prefix)]


def norm(t):
    return re.sub(r"\s+", " ", t)


def out(path):
    return pyflow.s(path.out[1]) if path.out and path.out[0] == "return" and path.out[1] is not None else "None"


def raised(path):
    return bool(path.out and path.out[0] == "raise")


def fdb(ctx):
    f = "src/pyfdb/pyfdb.py"
    m = Mod(f)
    ctx.need("FDB" in m.classes, "pyfdb.FDB not found")
    ms = m.methods("FDB")
    for name, spec in FORWARD.items():
        ok = name in ms
        ctx.ob("forward", f"FDB.{name}: exists", ok, f"{f}:1", "")
        if not ok or spec is None:
            continue
        d = ms[name]
        where = f"{f}:{d.lineno}"
        ps = [a.arg for a in d.args.args]
        want = [norm(a.format(*ps, *(["?"] * 6))) for a in spec[0]]
        paths = Flow(m, "FDB").run(d)
        bad = None
        n = 0
        for q in paths:
            if raised(q):
                continue
            n += 1
            cs = calls_of(q, "self.FDB.")
            cs = [c for c in cs if c[1].count("(") == 0]
            if len(cs) != 1 or cs[0][1] != f"self.FDB.{name}":
                bad = (where, f"calls {[c[1] for c in cs]} on some path")
                break
            c = cs[0]
            if [norm(x) for x in c[2]] != want or c[3]:
                bad = (f"{f}:{c[-1]}", f"arguments {list(c[2])} {list(c[3])}, expected {want}")
                break
        ctx.ob("forward", f"FDB.{name}: calls the library's {name} once, with every argument in its place", bad is None and n > 0, bad[0] if bad else where, bad[1] if bad else f"{n} path(s)")
        dfl = dict(zip(ps[len(ps) - len(d.args.defaults):], (pyflow.s(x) for x in d.args.defaults)))
        for k, v in DEFAULTS.get(name, {}).items():
            ctx.ob("forward", f"FDB.{name}: {k} defaults to {v}", dfl.get(k) == v, where, str(dfl.get(k)))
        full = f"self.FDB.{name}({', '.join(want)})"
        kind = spec[1]
        if kind is None:
            continue
        if name in GENERATORS:
            element(ctx, f, d, paths, kind, full, f"FDB.{name}")
            continue
        exp = {"ret": [full], "DataHandle": [f"DataHandle({full}, _internal=True)"], "IndexAxis": [f"IndexAxis({full})"]}[kind]
        bad = [q for q in paths if not raised(q) and norm(out(q)) not in exp]
        ctx.ob("forward", f"FDB.{name}: returns what the library returned", not bad, where, norm(out(bad[0])) if bad else exp[0][:120])
    # archive
    d = ms.get("archive")
    ctx.need(d, "FDB.archive not found")
    ps = [a.arg for a in d.args.args]
    bad = None
    forms = set()
    for q in Flow(m, "FDB").run(d):
        if raised(q):
            continue
        cs = calls_of(q, "self.FDB.")
        none = [e[2] for e in q.events if e[0] == "cond" and e[1] == f"{ps[2]} is None"]
        args = list(cs[0][2]) if len(cs) == 1 and cs[0][1] == "self.FDB.archive" else None
        want = [ps[1], f"len({ps[1]})"]
        if args == want and none and none[-1]:
            forms.add("message")
        elif args == [f"UserInputMapper.map_identifier_to_internal({ps[2]})"] + want and none and not none[-1]:
            forms.add("identifier")
        else:
            bad = f"{[(c[1], c[2]) for c in cs]} when identifier is None: {none}"
    ctx.ob("forward", "FDB.archive: the bytes with their length, under the identifier if one is given", bad is None and forms == {"message", "identifier"}, f"{f}:{d.lineno}", bad or str(sorted(forms)))
    # leaving the context flushes
    if "__exit__" in ms:
        bad = [q for q in Flow(m, "FDB").run(ms["__exit__"]) if not raised(q) and not calls_of(q, "self.FDB.flush")]
        ctx.ob("forward", "FDB.__exit__: flushes on every path", not bad, f"{f}:{ms['__exit__'].lineno}", "")
    # configuration
    d = ms["__init__"]
    ps = [a.arg for a in d.args.args]
    paths = [q for q in Flow(m, "FDB").run(d) if not raised(q)]
    for c in (None, "C"):
        for u in (None, "U"):
            bad, n = None, 0
            for q in paths:
                def val(t):
                    t = t.replace(f"ConfigMapper.to_json({ps[1]})", repr(c)).replace(f"ConfigMapper.to_json({ps[2]})", repr(u))
                    t = re.sub(rf"\b{ps[1]}\b", repr(c), t)
                    t = re.sub(rf"\b{ps[2]}\b", repr(u), t)
                    try:
                        with warnings.catch_warnings():
                            warnings.simplefilter("ignore")
                            return eval(t, {"__builtins__": {}})  # constants only: None and strings compared
                    except Exception:
                        return "?"
                if any(e[0] == "cond" and val(e[1]) != "?" and bool(val(e[1])) != e[2] for e in q.events):
                    continue
                n += 1
                mk = [e for e in q.events if e[0] == "call" and e[1] == "_FDB"]
                cf = [e for e in q.events if e[0] == "call" and e[1] == "Config"]
                if len(mk) != 1:
                    bad = f"{len(mk)} library objects are made"
                elif not mk[0][2]:
                    if c or u:
                        bad = "a configuration that was given is dropped"
                elif len(cf) != 1 or [val(x) for x in cf[0][2]] != [c, u]:
                    bad = f"Config{cf[0][2] if cf else '()'} for config={c}, user_config={u}"
            ctx.ob("forward", f"FDB(config {'given' if c else 'not given'}, user_config {'given' if u else 'not given'}): both reach the library", bad is None and n > 0, f"{f}:{d.lineno}", bad or f"{n} path(s)")
    d = ms["config"]
    r = [norm(out(q)) for q in Flow(m, "FDB").run(d) if not raised(q)]
    ok = bool(r) and all(t == "(ConfigMapper.from_json(self.FDB.config().json()), ConfigMapper.from_json(self.FDB.config().userConfig().json()))" for t in r)
    ctx.ob("forward", "FDB.config: returns the configuration and the user configuration", ok, f"{f}:{d.lineno}", str(r)[:200])


def element(ctx, f, d, paths, kind, full, inst):
    """every element that the library's iterator gives is yielded, in the class of its kind"""
    bad, n = None, 0
    want = f"{kind}(elem({full}), _internal=True)"
    for q in paths:
        if raised(q) or any(e[0] == "except" for e in q.events):
            continue
        ys = [norm(e[1]) for e in q.events if e[0] == "yield"]
        ya = [norm(e[1]) for e in q.events if e[0] == "yieldall"]
        looped = any(e[0] == "loop" for e in q.events if norm(e[1]) == full or e[1] in ("True", "1"))
        if ya:
            n += 1
            if ya != [f"listof({want}, {full})"]:
                bad = f"yields from {ya}"
            continue
        if not looped:
            continue
        n += 1
        if ys != [want]:
            bad = f"yields {ys} for an element"
        k = [e[0] for e in q.events]
        if "break" in k or q.out is not None and q.out[0] == "return":
            bad = "stops after an element"
    ctx.ob("forward", f"{inst}: every element is handed out as {kind}", bad is None and n > 0, f"{f}:{d.lineno}", bad or f"{n} path(s)")


def handlers(ctx):
    """errors of the library are not swallowed in Python"""
    allowed = {("DataHandle", "read")}
    for f in ("src/pyfdb/pyfdb.py", "src/pyfdb/pyfdb_iterator.py", "src/pyfdb/pyfdb_type.py", "src/pyfdb/_internal/pyfdb_internal.py", "src/pychunked_data_view/chunked_data_view.py"):
        m = Mod(f)
        for cls, node in list(m.classes.items()) + [("", m.tree)]:
            fs = m.methods(cls) if cls else m.funcs
            for name, d in fs.items():
                for t in ast.walk(d):
                    if isinstance(t, (ast.With, ast.AsyncWith)) and any("suppress" in ast.unparse(i.context_expr) for i in t.items):
                        ctx.ob("errors", f"{cls}.{name}: errors are not suppressed", False, f"{f}:{t.lineno}", "contextlib.suppress")
                    if not isinstance(t, ast.Try):
                        continue
                    for h in t.handlers:
                        ty = ast.unparse(h.type) if h.type else ""
                        if ty == "StopIteration":
                            ok, why = True, "end of the iteration"
                        elif (cls, name) in allowed and ty == "RuntimeError":
                            # a handle that does not know its size: the amount asked for is read
                            ok, why = any(isinstance(x, ast.Raise) for x in ast.walk(h)), "re-raised unless an amount was given"
                        else:
                            res = Flow(m, cls or None).block(h.body, [pyflow.Path({})])
                            ok = bool(res) and all(raised(q) or any(e[0] == "raise" for e in q.events) for q in res)
                            why = "raises on every path" if ok else f"`except {ty}` may end normally"
                        ctx.ob("errors", f"{cls}.{name}: a handler of {ty or 'everything'} passes the failure on", ok, f"{f}:{h.lineno}", why)
                    if any(isinstance(x, ast.Return) for b in t.finalbody for x in ast.walk(b)):
                        ctx.ob("errors", f"{cls}.{name}: no return in finally", False, f"{f}:{t.lineno}", "")


ACCESS = {
    "ListElement": {"has_location": "{e}.has_location()", "offset": "{e}.offset()", "length": "{e}.length()", "combined_key": "{e}.combined_key()",
                    "keys": "{e}.keys()", "data_handle": "DataHandle({e}.data_handle(), _internal=True)", "uri": "URI({e}.uri())"},
    "WipeElement": {"type": "WipeElementType._from_raw({e}.type())", "msg": "{e}.msg()", "uris": "listof(URI(elem({e}.uris())), {e}.uris())"},
    "StatusElement": {"location": "URI({e}.location())", "key": "{e}.key()", "controlIdentifiers": "listof(ControlIdentifier._from_raw(elem({e}.controlIdentifiers())), {e}.controlIdentifiers())"},
    "ControlElement": {"location": "URI({e}.location())", "key": "{e}.key()", "controlIdentifiers": "listof(ControlIdentifier._from_raw(elem({e}.controlIdentifiers())), {e}.controlIdentifiers())"},
    "StatsElement": {"db_statistics": "{e}.db_statistics()", "index_statistics": "{e}.index_statistics()"},
    "IndexAxis": {"__getitem__": "{e}[{1}]", "__len__": "len({e})", "has_key": "{1} in {e}", "__contains__": "{1} in {e}", "__iter__": "{e}.keys()"},
}
OPTIONAL = {("ListElement", n) for n in ("offset", "length", "data_handle", "uri")}


def member(m, cls):
    """the attribute in which the constructor keeps what the library gave"""
    d = m.methods(cls)["__init__"]
    prm = [a.arg for a in d.args.args][1]
    for q in Flow(m, cls).run(d):
        if raised(q):
            continue
        for e in q.events:
            if e[0] == "assign" and e[1].startswith("self.") and e[2] == prm:
                return e[1]
    return None


def accessors(ctx):
    f = "src/pyfdb/pyfdb_iterator.py"
    m = Mod(f)
    for cls, acc in ACCESS.items():
        ctx.need(cls in m.classes, f"pyfdb.{cls} not found")
        e = member(m, cls)
        if e is None and "IndexAxis" == cls:
            e = "self.index_axis"
        ctx.ob("accessor", f"{cls}: keeps the element that it was given", e is not None, f"{f}:{m.classes[cls].lineno}", str(e))
        if e is None:
            continue
        ms = m.methods(cls)
        for name, exp in acc.items():
            d = ms.get(name)
            ctx.ob("accessor", f"{cls}.{name}: exists", d is not None, f"{f}:{m.classes[cls].lineno}", "")
            if d is None:
                continue
            ps = [a.arg for a in d.args.args] + ["?"] * 3
            want = norm(exp.format(*ps, e=e))
            bad, n = None, 0
            for q in Flow(m, cls, opaque=("_from_raw",)).run(d):
                if raised(q):
                    continue
                got = norm(out(q))
                if got == want:
                    n += 1
                elif got == "None" and (cls, name) in OPTIONAL:
                    if not any(x[0] == "cond" and "has_location()" in x[1] and x[2] is False for x in q.events):
                        bad = "nothing is returned for an element that may have a location"
                else:
                    bad = f"returns {got}, expected {want}"
            ctx.ob("accessor", f"{cls}.{name}: returns what the library's element says", bad is None and n > 0, f"{f}:{d.lineno}", bad or want)
    for name in ("__setitem__", "__delitem__", "clear"):
        d = m.methods("IndexAxis").get(name)
        ok = d is not None and all(raised(q) for q in Flow(m, "IndexAxis").run(d))
        ctx.ob("accessor", f"IndexAxis.{name}: refused", ok, f"{f}:{d.lineno if d else 1}", "")


def handle(ctx):
    f = "src/pyfdb/pyfdb_type.py"
    m = Mod(f)
    ms = m.methods("DataHandle")
    h = member(m, "DataHandle")
    ctx.need(h, "pyfdb.DataHandle does not keep its handle")

    def opened(q):
        for e in q.events:
            if e[0] == "cond" and "self.opened" in e[1]:
                t = e[1].replace("self.opened", "X")
                if t in ("X", "X is True", "X == True"):
                    return e[2]
                if t in ("X is False", "X == False"):
                    return not e[2]
        return None

    for name, to in (("open", "True"), ("close", "False")):
        d = ms[name]
        bad, n = None, 0
        for q in Flow(m, "DataHandle").run(d):
            if raised(q):
                continue
            cs = [k for k, e in enumerate(q.events) if e[0] == "call" and e[1] == f"{h}.{name}"]
            st = [(k, e[2]) for k, e in enumerate(q.events) if e[0] == "assign" and e[1] == "self.opened"]
            o = opened(q)
            if not cs:
                if o is not (to == "True"):
                    bad = f"nothing is done although the handle may be {'closed' if to == 'True' else 'open'}"
            else:
                n += 1
                if len(cs) > 1 or o is not (to == "False"):
                    bad = f"{name} happens more than once"
                if [v for _, v in st] != [to]:
                    bad = "the state is not recorded"
                elif name == "open" and st[0][0] < cs[0]:
                    bad = "recorded as opened before the open has succeeded"
        ctx.ob("handle", f"DataHandle.{name}: {name}s the library's handle once and records it", bad is None and n > 0, f"{f}:{d.lineno}", bad or "")
    d = ms["size"]
    ctx.ob("handle", "DataHandle.size: the library's size", all(out(q) == f"{h}.size()" for q in Flow(m, "DataHandle").run(d) if not raised(q)), f"{f}:{d.lineno}", "")
    for name in ("read", "readinto"):
        d = ms[name]
        prm = [a.arg for a in d.args.args][1]
        bad, n = None, 0
        for q in Flow(m, "DataHandle").run(d):
            if raised(q):
                continue
            n += 1
            if opened(q) is not True:
                bad = "reads a handle that may not be open"
            cs = [e for e in q.events if e[0] == "call" and e[1] == f"{h}.read"]
            if len(cs) != 1:
                bad = f"{len(cs)} reads"
                continue
            arg = cs[0][2][0] if cs[0][2] else ""
            if name == "readinto":
                if arg != prm or out(q) != f"{h}.read({prm})":
                    bad = f"reads into {arg} and returns {out(q)}"
                continue
            mm = re.match(r"^bytearray\((.*)\)$", arg)
            if not mm:
                bad = f"reads into {arg}"
                continue
            size = mm.group(1)
            all_ = [e[2] == (e[1] in (f"{prm} == -1", f"{prm} < 0")) for e in q.events if e[0] == "cond" and e[1] in (f"{prm} == -1", f"{prm} < 0", f"{prm} != -1", f"{prm} >= 0", f"0 <= {prm}")]
            if not all_ and not re.search(rf"\b{prm}\b", size):
                bad = f"reads {size} however much is asked for"
            if all_ and all_[-1] and size != f"{h}.size()":
                bad = f"reads {size} when everything is asked for"
            if all_ and not all_[-1] and not re.search(rf"\b{prm}\b", size):
                bad = f"reads {size} when {prm} bytes are asked for"
            if out(q) in ("b''", 'b""'):
                if not any(e[0] == "cond" and (e[1] in (f"{h}.read({arg}) == 0", f"{h}.read({arg}) <= 0") and e[2] or e[1] in (f"{h}.read({arg})", f"0 < {h}.read({arg})", f"{h}.read({arg}) > 0") and not e[2]) for e in q.events):
                    bad = "returns nothing although something may have been read"
            elif arg not in out(q):
                bad = f"returns {out(q)}"
        ctx.ob("handle", f"DataHandle.{name}: hands out what was read from an open handle", bad is None and n > 0, f"{f}:{d.lineno}", bad or f"{n} path(s)")
    d = ms.get("readall")
    if d:
        bad, n = None, 0
        for q in Flow(m, "DataHandle").run(d):
            if raised(q):
                continue
            names = [e[1] for e in q.events if e[0] == "call"]
            rd = [k for k, x in enumerate(names) if x == f"{h}.read"]
            ext = [e for e in q.events if e[0] == "call" and e[1].endswith(".extend") or e[0] == "assign" and "[:" in str(e[2])]
            if len(rd) > 1:
                n += 1
                if not ext or not any(f"[:{h}.read(" in str(x) for e in ext for x in e[2:]):
                    bad = "what was read is not kept (up to the number of bytes read)"
        ctx.ob("handle", "DataHandle.readall: everything read is kept until the end", bad is None and n > 0, f"{f}:{d.lineno}", bad or "")
    for name, op in (("__enter__", "open"), ("__exit__", "close")):
        d = ms.get(name)
        if d:
            bad = [q for q in Flow(m, "DataHandle", opaque=("open", "close", "DataHandle.open", "DataHandle.close")).run(d) if not raised(q) and not calls_of(q, f"self.{op}")]
            ctx.ob("handle", f"DataHandle.{name}: {op}s", not bad, f"{f}:{d.lineno}", "")


def mapper(ctx):
    f = "src/pyfdb/pyfdb_type.py"
    m = Mod(f)
    ms = m.methods("UserInputMapper")
    d = ms.get("map_selection_to_internal")
    ctx.need(d, "UserInputMapper.map_selection_to_internal not found")
    prm = [a.arg for a in d.args.args][1]
    K, V = f"elem({prm}.items())[0]", f"elem({prm}.items())[1]"
    bad, n = None, 0
    for q in Flow(m, "UserInputMapper").run(d):
        if raised(q):
            continue
        if not any(e[0] == "loop" and e[1] == f"{prm}.items()" for e in q.events):
            if not any(e[0] == "zero" for e in q.events):
                bad = "the selection is not enumerated"
            continue
        n += 1
        st = [e for e in q.events if e[0] == "assign" and e[1].endswith(f"[{K}]")]
        if len(st) != 1:
            bad = f"a keyword is stored {len(st)} times on some path"
            continue
        v = norm(st[0][2])
        conds = {(e[1], e[2]) for e in q.events if e[0] == "cond"}
        if V not in v or "someof(" in v or re.search(r"\[[^\[\]]*:[^\[\]]*\]", v):
            bad = f"its values become {v}"
        elif v == f"[{V}]" and (f"'/' in {V}", False) not in conds:
            bad = "a list written with slashes is taken for one value"
        elif ".split(" in v and not re.search(r"\.split\('/'\)", v):
            bad = f"a list is split by {v}"
        if out(q) != st[0][1][:-len(f"[{K}]")]:
            bad = f"returns {out(q)}"
    ctx.ob("mapper", "map_selection_to_internal: every keyword keeps all of its values", bad is None and n > 0, f"{f}:{d.lineno}", bad or f"{n} path(s)")
    d = ms.get("map_identifier_to_internal")
    ctx.need(d, "UserInputMapper.map_identifier_to_internal not found")
    prm = [a.arg for a in d.args.args][1]
    bad, n = None, 0
    for q in Flow(m, "UserInputMapper").run(d):
        if raised(q):
            continue
        lp = [e[1] for e in q.events if e[0] == "loop" and e[1] in (prm, f"{prm}.items()")]
        if not lp:
            if not any(e[0] == "zero" for e in q.events):
                bad = "the identifier is not enumerated"
            continue
        n += 1
        k, v = f"elem({lp[0]})[0]", f"elem({lp[0]})[1]"
        st = [e for e in q.events if e[0] == "assign" and e[1].endswith(f"[{k}]")]
        if len(st) != 1 or st[0][2] != v:
            bad = f"stores {[(e[1], e[2]) for e in st]}"
            continue
        base = st[0][1][:-len(f"[{k}]")]
        if not any(e[0] == "cond" and e[1] in (f"{k} in {base}", f"{k} in {{}}") and e[2] is False for e in q.events):
            bad = "a keyword given twice is not refused"
        if out(q) != f"{base}.items()":
            bad = f"returns {out(q)}"
    ctx.ob("mapper", "map_identifier_to_internal: every pair is kept, none twice", bad is None and n > 0, f"{f}:{d.lineno}", bad or f"{n} path(s)")
    f = "src/pyfdb/_internal/pyfdb_internal.py"
    m = Mod(f)
    d = m.methods("FDBToolRequest")["from_internal_mars_selection"]
    prm = [a.arg for a in d.args.args][1]
    bad, n = None, 0
    for q in Flow(m, "FDBToolRequest").run(d):
        if raised(q):
            continue
        n += 1
        mk = [e for e in q.events if e[0] == "call" and e[1] in ("cls", "FDBToolRequest")]
        if len(mk) != 1:
            bad = f"{len(mk)} requests are made"
            continue
        a = dict(zip(("key_values", "all", "minimum_key_set"), mk[0][2]))
        a.update(dict(mk[0][3]))
        al = a.get("all", "False")
        if al not in ("True", "False", f"not {prm}", f"{prm} is None or len({prm}) == 0", f"len({prm}) == 0"):
            bad = f"everything is asked for when {al}"
        elif al == "True":
            if not any(e[0] == "cond" and e[2] is True and re.search(rf"{prm} is None|len\({prm}\) == 0", e[1]) or e[0] == "cond" and e[2] is False and e[1] == prm for e in q.events):
                bad = "everything is asked for although a selection may have been given"
        elif a.get("key_values") != prm:
            bad = f"made of {a}"
    ctx.ob("mapper", "FDBToolRequest: carries the selection, or all if there is none", bad is None and n > 0, f"{f}:{d.lineno}", bad or f"{n} path(s)")
    d = m.methods("FDBToolRequest")["__init__"]
    ps = [a.arg for a in d.args.args]
    bad, n = None, 0
    for q in Flow(m, "FDBToolRequest").run(d):
        mk = [e for e in q.events if e[0] == "call" and e[1].endswith("FDBToolRequest")]
        st = [e for e in q.events if e[0] == "assign" and e[1] == "self.tool_request"]
        n += 1
        if len(mk) != 1 or len(st) != 1 or mk[0][2][:2] != (ps[1], ps[2]) or len(mk[0][2]) != 3 or mk[0][2][2] not in (ps[3], "[]"):
            bad = f"{[e[2] for e in mk]}"
    ctx.ob("mapper", "FDBToolRequest: hands its three parts to the library", bad is None and n > 0, f"{f}:{d.lineno}", bad or "")
    d = m.methods("ConfigMapper")["to_json"]
    prm = [a.arg for a in d.args.args][1]
    bad, n = None, 0
    for q in Flow(m, "ConfigMapper").run(d):
        if raised(q):
            continue
        n += 1
        r = out(q)
        if any(e[0] == "cond" and e[1] == f"{prm} is None" and e[2] for e in q.events):
            if r not in ("None", prm):
                bad = f"no configuration becomes {r}"
        elif r not in (f"json.dumps({prm})", f"json.dumps(yaml.safe_load({prm}))", f"json.dumps(yaml.safe_load({prm}.read_text()))"):
            bad = f"becomes {r}"
    ctx.ob("mapper", "ConfigMapper.to_json: the whole configuration", bad is None and n > 0, f"{f}:{d.lineno}", bad or f"{n} path(s)")


def chunked(ctx):
    f = "src/pychunked_data_view/chunked_data_view.py"
    m = Mod(f)
    for cls, acc in {"ChunkedDataView": {"at": "{e}.at({1})", "chunkShape": "{e}.chunk_shape()", "chunks": "{e}.chunks()", "shape": "{e}.shape()", "fill_missing_value": "{e}.fill_missing_value()"}}.items():
        e = member(m, cls)
        ctx.need(e, f"{cls} does not keep its object")
        for name, exp in acc.items():
            d = m.methods(cls).get(name)
            ctx.ob("accessor", f"{cls}.{name}: exists", d is not None, f"{f}:1", "")
            if d is None:
                continue
            ps = [a.arg for a in d.args.args] + ["?"] * 3
            want = exp.format(*ps, e=e)
            got = [norm(out(q)) for q in Flow(m, cls).run(d) if not raised(q)]
            ctx.ob("accessor", f"{cls}.{name}: returns what the library's view says", bool(got) and all(g == want for g in got), f"{f}:{d.lineno}", str(got))
    b = m.methods("ChunkedDataViewBuilder")
    for name, exp in {"add_part": ["_mars_selection_to_string({1})", "listof(elem({2})._obj, {2})", "{3}.value"], "extend_on_axis": ["{1}"], "fill_missing_value": ["{1}"], "build": []}.items():
        d = b.get(name)
        ctx.need(d, f"ChunkedDataViewBuilder.{name} not found")
        ps = [a.arg for a in d.args.args] + ["?"] * 4
        want = tuple(x.format(*ps) for x in exp)
        bad, n = None, 0
        for q in Flow(m, "ChunkedDataViewBuilder", opaque=("_mars_selection_to_string",)).run(d):
            if raised(q) or any(e[0] in ("except", "raise") for e in q.events):
                continue
            n += 1
            cs = calls_of(q, "self._obj.")
            if len(cs) != 1 or cs[0][1] != f"self._obj.{name}" or cs[0][2] != want:
                bad = f"{[(c[1], c[2]) for c in cs]}, expected {want}"
            if name == "build" and out(q) != "ChunkedDataView(self._obj.build())":
                bad = f"returns {out(q)}"
        ctx.ob("forward", f"ChunkedDataViewBuilder.{name}: hands every argument on", bad is None and n > 0, f"{f}:{d.lineno}", bad or f"{n} path(s)")
    # chunkings, both ways
    d = m.methods("AxisDefinition")["_translate_chunking"]
    prm = [a.arg for a in d.args.args][-1]
    got = {}
    for q in Flow(m, "AxisDefinition").run(d):
        if raised(q):
            continue
        c = [e[1] for e in q.events if e[0] == "cond" and e[2]]
        got[c[-1] if c else ""] = out(q)
    pairs = {"FixedSizeChunk": rf"FixedSizeChunking\({prm}\.chunkShape\)$", "WHOLE_AXIS": r"WholeAxisChunking\(\)$", "SINGLE_VALUE": r"SingleValueChunking\(\)$"}
    for k, rx in pairs.items():
        v = [r for c, r in got.items() if k in c]
        ctx.ob("enum", f"Chunking.{k}: becomes the library's chunking of its meaning", len(v) == 1 and bool(re.search(rx, v[0])), f"{f}:{d.lineno}", str(v))
    d = m.methods("AxisDefinition")["chunking"]
    got = {}
    for q in Flow(m, "AxisDefinition").run(d):
        if raised(q):
            continue
        c = [e[1] for e in q.events if e[0] == "cond" and e[2]]
        got[c[-1] if c else ""] = out(q)
    for k, rx in {"WholeAxisChunking": r"^Chunking\.WHOLE_AXIS$", "SingleValueChunking": r"^Chunking\.SINGLE_VALUE$", "FixedSizeChunking": r"^Chunking\.FixedSizeChunk\(self\._obj\.chunking\.chunk_shape\(\)\)$"}.items():
        v = [r for c, r in got.items() if k in c]
        ctx.ob("enum", f"{k}: is shown as the chunking of its meaning", len(v) == 1 and bool(re.search(rx, v[0])), f"{f}:{d.lineno}", str(v))
    d = m.methods("AxisDefinition")["__init__"]
    mk = [e for q in Flow(m, "AxisDefinition", opaque=("_translate_chunking", "AxisDefinition._translate_chunking")).run(d) for e in q.events if e[0] == "call" and e[1].endswith("AxisDefinition")]
    ps = [a.arg for a in d.args.args]
    ok = bool(mk) and all(dict(e[3]).get("keys") == ps[1] and re.match(rf"^(self|AxisDefinition)\._translate_chunking\({ps[2]}\)$", dict(e[3]).get("chunking", "")) for e in mk)
    ctx.ob("forward", "AxisDefinition: keys and chunking reach the library", ok, f"{f}:{d.lineno}", str([e[3] for e in mk]))
    # the request text
    d = m.funcs["_mars_selection_to_string"]
    prm = d.args.args[0].arg
    K, V = f"elem({prm}.items())[0]", f"elem({prm}.items())[1]"
    bad, n = None, 0
    for q in Flow(m, None).run(d):
        lp = [e for e in q.events if e[0] == "loop" and e[1] == f"{prm}.items()"]
        if not lp or raised(q):
            continue
        n += 1
        ap = [e[2][0] for e in q.events if e[0] == "call" and e[1].endswith(".append")]
        t = " ".join(ap) + " " + out(q)
        if f"{{{K}}}=" not in t and f"{K} + '='" not in t and "listof" not in t or V not in t and "listof" not in t:
            bad = f"a keyword becomes {t}"
        if any(e[0] == "continue" for e in q.events):
            bad = "a keyword may be skipped"
        if "'/'.join(" in t and "someof(" in t:
            bad = "a value may be skipped"
        if "','.join(" not in out(q):
            bad = f"returns {out(q)}"
    ctx.ob("mapper", "_mars_selection_to_string: every keyword with all of its values", bad is None and n > 0, f"{f}:{d.lineno}", bad or f"{n} path(s)")


def run(ctx):
    bindings(ctx)
    conversion(ctx)
    enums(ctx)
    fdb(ctx)
    handlers(ctx)
    accessors(ctx)
    handle(ctx)
    mapper(ctx)
    chunked(ctx)
