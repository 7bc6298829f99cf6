"""Static decision of "arguments of the client interface reach the backend unchanged": for every public operation, the provenance of every
argument of the call that forwards it, through facade, lanes, local workers, remote helpers, server helpers and the C interface."""
import re

from vt.lib import DONE, HIT, NEED, CallPred, Flows, MustPass, codec, must_pass, below, deepflows, flows, last, member_of, par, sanctioned, tally, member_values
from vt.engine import Engine
from vt.prog import Sym

TECHNIQUE = "interprocedural provenance of every argument of forwarding calls (also through worker lambdas), must-pass and exactly-once of the forwarding call, closed set of operations reachable from each facade method, members of the visitors and helpers that carry arguments"
ASSUMPTIONS = ["copying a request or a key keeps its contents"]
FLOORS = {"forward": 25, "lanes": 8, "visitor": 8, "c-api": 8, "server": 4}

OPS = {"archive": 3, "reindex": 2, "inspect": 1, "list": 2, "dump": 2, "status": 1, "wipe": 4, "purge": 3, "stats": 1, "control": 3, "move": 2, "axesIterator": 2}
BACK = r"^fdb5::(FDBBase|LocalFDB|RemoteFDB|SelectFDB|RandomFDB|FDB)::"
V = "fdb5::api::local::"
VISITORS = {"list": ("ListVisitor", (1,)), "dump": ("DumpVisitor", (1,)), "status": ("StatusVisitor", ()), "wipe": ("WipeCatalogueVisitor", (1,)),
            "purge": ("PurgeVisitor", (1, 2)), "stats": ("StatsVisitor", ()), "control": ("ControlVisitor", (1, 2)), "move": ("MoveVisitor", (1,)),
            "axesIterator": ("AxesVisitor", (1,))}


def P(f, k):
    return rf"^(std::(move|forward))?\(?{par(f, k)}\)?$"


def near(f):
    own = {f.cls}
    return lambda g: g.cls in own or not g.cls or g.kind == "lambda" or g.cls.startswith(f.cls + "::")


class Others(Flows):
    """client operations of another name below the root"""
    def __init__(self, prog, names, allow):
        super().__init__(prog, CallPred(BACK + r"(?!(" + "|".join(names) + r")$)(" + "|".join([*OPS, "flush"]) + ")$"), {}, None, allow)


def only(ctx, rule, f, names, what):
    """no other operation than these is called by f and its helpers"""
    r = Others(ctx.p, names, near(f))
    e = Engine(ctx.p, r)
    work, done, bad = [f], set(), {}
    while work:
        g = work.pop()
        if g.id in done:
            continue
        done.add(g.id)
        for i, inf in g.calls():
            if re.match(BACK, inf["q"]) and last(inf["q"]) not in names and last(inf["q"]) in {*OPS, "flush"} and len(g.args(i)):
                bad[(g.id, i)] = (g.loc(i), f"calls {inf['q']}")
        work += ctx.p.lambdas_of(g)
    b = sorted(bad.values())
    ctx.ob(rule, f"{f.q}: {what}", not b, b[0][0] if b else f.loc(), b[0][1] if b else f"{len(done)} function(s)")


def fwd(ctx, rule, f, pred, args, what, obj=None):
    """the forwarding call happens exactly once on each normal path, with these arguments"""
    ok = deepflows(ctx, rule, f, pred, args, what, obj=obj, allow=near(f))
    return ok


class Lanes(MustPass):
    """as MustPass over a loop; an iteration whose lane does not match is fine"""
    def branch(self, fr, st, form, cond):
        if st == NEED and sanctioned(form, [(r"subFdbs_.*\bmatch\(", False), (r"subFdbs_.*\bmatches\(", False), (r"any_of\(.*subFdbs_", True)]):
            return (HIT,)
        return super().branch(fr, st, form, cond)


def lanes(ctx, f, op):
    r = Lanes(ctx.p, [CallPred(BACK + op + "$")], forall=r"subFdbs_", allow=near(f))
    e = Engine(ctx.p, r)
    n, _ = e.run(f, NEED, None)
    ctx.count(r)
    bad = [s for s in n if s in (NEED, HIT)]
    ctx.ob("lanes", f"{f.q}: each lane which the request matches is asked", bool(r.hits) and not bad, f.loc(),
           ("a matching lane may be skipped; " + e.path(f, bad[0])) if bad else f"{len(r.hits)} site(s)")


def defs(p, q, n=None):
    return [f for f in p.find(q) if n is None or len(f.params) == n]


def notimp(f):
    """the whole body refuses"""
    b = f.blocks.get(f.cfg["entry"]) if f.cfg else None
    return any(inf["q"].startswith("eckit::NotImplemented") for _, inf in f.calls())


def run(ctx):
    p = ctx.p
    sym = Sym(p)
    IN = r"^this\.internal_$|internal"

    # ---- facade
    for op, n in OPS.items():
        fs = [f for f in p.find("fdb5::FDB::" + op) if len(f.params) == n + (1 if op == "list" else 0) or op == "archive"]
        ctx.need(fs, f"no {op} in the facade")
        for f in fs:
            sig = "(" + ", ".join(x[2] for x in f.params) + ") "
            if op == "archive":
                continue
            if op == "list":
                if f.params[1][2].endswith("bool"):
                    flows(ctx, "forward", f, CallPred(r"^fdb5::FDB::list$"), {0: P(f, 0), 1: rf"^\(?{par(f, 1)}\s*\?\s*fdb5::ListMode::Deduplicate\s*:\s*fdb5::ListMode::Full\)?$|^\(?!\(?{par(f, 1)}\)?\s*\?\s*fdb5::ListMode::Full\s*:\s*fdb5::ListMode::Deduplicate\)?$", 2: P(f, 2)}, sig + "forwarded with all arguments", allow=near(f))
                    tally(ctx, "forward", f, [CallPred(r"^fdb5::FDB::list$"), CallPred(BACK + r"list$", args={1: r"^" + par(f, 2)})], sig + "forwarded once", allow=lambda g: False)
                    continue
                flows(ctx, "forward", f, CallPred(BACK + r"list$"), {0: P(f, 0), 1: P(f, 2)}, sig + "forwarded with all arguments", obj=IN, allow=near(f))
                flows(ctx, "forward", f, CallPred(r"^fdb5::ListIterator::<ctor>$"), {0: r"list", 1: P(f, 1)}, sig + "the mode reaches the iterator", allow=near(f))
            elif op == "wipe":
                deepflows(ctx, "forward", f, CallPred(BACK + r"wipe$"), {k: P(f, k) for k in range(4)}, sig + "forwarded with all arguments", obj=IN, allow=near(f))
                deepflows(ctx, "forward", f, CallPred(r"^fdb5::WipeCoordinator::wipe$"), {1: P(f, 1), 2: P(f, 3)}, sig + "coordinated with the same flags", allow=near(f))
            else:
                flows(ctx, "forward", f, CallPred(BACK + op + "$"), {k: P(f, k) for k in range(n)}, sig + "forwarded with all arguments", obj=IN, allow=near(f))
            if op != "wipe":
                tally(ctx, "forward", f, [CallPred(BACK + op + "$")], sig + "forwarded exactly once", allow=near(f))
            only(ctx, "forward", f, {op}, sig + "no other operation is called")
    for f in p.find("fdb5::FDB::archive"):
        sig = "(" + ", ".join(x[2] for x in f.params) + ") "
        if len(f.params) == 3:
            flows(ctx, "forward", f, CallPred(BACK + "archive$", obj=IN), {0: rf"{par(f, 0)}|^local:\w*$", 1: P(f, 1), 2: P(f, 2)}, sig + "forwarded with all arguments", allow=near(f))
            tally(ctx, "forward", f, [CallPred(BACK + "archive$", obj=IN)], sig + "forwarded exactly once", allow=near(f))
            copied(ctx, f)
    for q, t in (("registerArchiveCallback", 0), ("registerFlushCallback", 0)):
        for f in p.find("fdb5::FDB::" + q):
            flows(ctx, "forward", f, CallPred(rf"::{q}$", obj=IN), {0: P(f, 0)}, "the callback is handed to the backend", allow=near(f))
            tally(ctx, "forward", f, [CallPred(rf"::{q}$", obj=IN)], "handed on exactly once", allow=near(f))
    for f in p.find("fdb5::FDB::axes"):
        flows(ctx, "forward", f, CallPred(r"(FDB|FDBBase)::axesIterator$"), {0: P(f, 0), 1: P(f, 1)}, "forwarded with all arguments", allow=lambda g: False)
    for f in p.find("fdb5::FDB::enabled"):
        flows(ctx, "forward", f, CallPred(r"::enabled$", obj=IN), {0: P(f, 0)}, "forwarded with all arguments", allow=near(f))
    for f in p.find("fdb5::FDB::retrieve"):
        flows(ctx, "forward", f, CallPred(r"(FDB|FDBBase)::inspect$"), {0: P(f, 0)}, "inspects the request given", allow=lambda g: False)
        tally(ctx, "forward", f, [CallPred(r"(FDB|FDBBase)::inspect$")], "inspects exactly once", allow=lambda g: False)

    # ---- lanes
    for op, n in OPS.items():
        fs = p.byq.get("fdb5::SelectFDB::" + op, [])
        fs = [f for f in fs if not notimp(f)]
        for f in fs:
            deepflows(ctx, "lanes", f, CallPred(BACK + op + "$"), {k: P(f, k) for k in range(n)}, "forwarded with all arguments", allow=near(f))
            only(ctx, "lanes", f, {op}, "no other operation is called")
            if op == "archive":
                continue
            # every matching lane is asked
            lanes(ctx, f, op)

    for q in ("registerArchiveCallback", "registerFlushCallback"):
        for f in p.find("fdb5::SelectFDB::" + q):
            must_pass(ctx, "lanes", f, [CallPred(rf"(FDBLane|FDBBase|FDB|CallbackRegistry)::{q}$", obj="subFdbs_", args={0: P(f, 0)})], forall="subFdbs_", what="every lane learns the callback", allow=near(f))

    # ---- local backend
    for op, (vis, ks) in VISITORS.items():
        for f in p.find("fdb5::LocalFDB::" + op):
            c = V + vis
            near2 = near(f)
            args = {1: rf"^{par(f, 0)}\.(request\(\)|request_)$"}
            args.update({2 + j: P(f, k) for j, k in enumerate(ks)})
            deepflows(ctx, "forward", f, CallPred(re.escape(c) + "::<ctor>$"), args, "the visitor receives the arguments", allow=near2)
            deepflows(ctx, "forward", f, CallPred(r"^fdb5::EntryVisitMechanism::visit$"), {0: P(f, 0)}, "the databases of the request are visited", allow=near2)
            only(ctx, "forward", f, {op}, "no other operation is called")
    for op, comp in (("archive", "Archiver"), ("reindex", "Reindexer"), ("inspect", "Inspector")):
        for f in p.find("fdb5::LocalFDB::" + op):
            pr = CallPred(rf"^fdb5::{comp}::{op}$")
            flows(ctx, "forward", f, pr, {k: P(f, k) for k in range(OPS[op])}, "forwarded with all arguments", allow=near(f))
            tally(ctx, "forward", f, [pr], "forwarded exactly once", allow=near(f))

    # ---- visitors keep what they receive
    for op, (vis, ks) in VISITORS.items():
        c = V + vis
        cs = [f for f in p.fns.values() if f.cls == c and f.kind == "ctor" and len(f.params) == 2 + len(ks)]
        for f in sorted(cs, key=lambda g: g.id):
            mv = member_values(p, f)
            for j in range(len(ks)):
                k = 2 + j
                m = [n for n, v in mv.items() if re.match(rf"^(std::move\()?{par(f, k)}\)?$", v[-1])]
                used = any(x[0] == "ref" and x[2][0] == f.params[k][0] for x in f.n)
                ctx.ob("visitor", f"{f.q}: parameter {k} is kept unchanged", bool(m) or not f.params[k][0], f.loc(), str(m))
            b = [it for it in f.inits if it[0] == "base" and it[2] is not None and it[2] >= 0]
            if not f.params[1][0]:
                continue  # inherited constructor
            ok = any(re.search(par(f, 1), sym.r(f, it[2])) for it in b) if b else any(re.search(par(f, 1), v[-1]) for v in mv.values())
            ctx.ob("visitor", f"{f.q}: keeps the request", ok, f.loc(), f"{len(b)} base(s)")
    # use of the members: same-typed flags cannot be swapped between constructor and use
    A = V + "ControlVisitor"
    m1, m2 = member_of(p, A, 2), member_of(p, A, 3)
    for f in p.find(A + "::visitDatabase"):
        flows(ctx, "visitor", f, CallPred(r"^fdb5::Catalogue\w*::control$"), {0: rf"^this\.{m1}$", 1: rf"^this\.{m2}$"}, "action and identifiers reach the catalogue", allow=near(f))
    m1 = member_of(p, V + "DumpVisitor", 2)
    for f in p.find(V + "DumpVisitor::visitDatabase"):
        flows(ctx, "visitor", f, CallPred(r"^fdb5::\w*Catalogue\w*::dump$"), {1: rf"^this\.{m1}$"}, "the flag reaches the catalogue", allow=near(f))
    m1 = member_of(p, V + "MoveVisitor", 2)
    for f in p.find(V + "MoveVisitor::visitDatabase"):
        flows(ctx, "visitor", f, CallPred(r"^fdb5::\w*Catalogue\w*::moveVisitor$"), {2: rf"^this\.{m1}$"}, "the destination reaches the mover", allow=near(f))
    for vis in ("ListVisitor", "AxesVisitor"):
        m1 = member_of(p, V + vis, 2)
        fs = [f for f in p.fns.values() if f.cls == V + vis and f.kind == "method" and any(x[0] in ("mem",) and last(x[2][0]) == m1 for x in f.n)]
        ctx.ob("visitor", f"{vis}: the level is used", bool(fs), (fs or [None])[0].loc() if fs else "", ", ".join(sorted(f.name for f in fs)))

    # ---- remote backend: helper objects
    for op, h, ks in (("list", "ListHelper", (1,)), ("axesIterator", "AxesHelper", (1,)), ("wipe", "WipeHelper", (1, 2, 3))):
        for f in p.find("fdb5::RemoteFDB::" + op):
            flows(ctx, "forward", f, CallPred(rf"{h}::<ctor>$"), {j: P(f, k) for j, k in enumerate(ks)}, "the helper receives the arguments", allow=near(f))
    for op in ("list", "axesIterator", "wipe", "inspect", "stats"):
        for f in p.find("fdb5::RemoteFDB::" + op):
            flows(ctx, "forward", f, CallPred(r"::controlWriteCheckResponse$"), {}, "a message is sent", allow=near(f))
            flows(ctx, "forward", f, CallPred(r"operator<<$", args={1: par(f, 0)}), {}, "the request is sent", allow=near(f))

    for h, ks in (("ListHelper", (0,)), ("AxesHelper", (0,)), ("WipeHelper", (0, 2))):
        cs = [f for f in p.fns.values() if f.name == "encodeExtra" and "RemoteFDB" in f.file and last(f.cls) == h]
        ctx.need(cs, f"no client helper {h}")
        for f in cs:
            sent = [t for _, o, _, t in codec(p, f) if o == "<<"]
            want = ["this." + str(member_of(p, f.cls, k)) for k in ks]
            ctx.ob("forward", f"{f.q}: the arguments are sent", sent == want, f.loc(), f"{sent}, expected {want}")

    # ---- server helpers
    for f in sorted(p.fns.values(), key=lambda g: g.id):
        if f.name == "apiCall" and "CatalogueHandler" in f.file and len(f.params) == 2:
            h = last(f.cls)
            if h == "BaseHelper" or h.startswith("BaseHelper<"):
                continue
            op = {"ListHelper": "list", "AxesHelper": "axesIterator", "WipeHelper": "wipe", "InspectHelper": "inspect", "StatsHelper": "stats"}.get(h)
            ctx.need(op, f"helper {f.cls} not known")
            n = 0
            for i, inf in f.calls():
                if re.match(BACK, inf["q"]) and last(inf["q"]) == op:
                    n += 1
            ctx.ob("server", f"{f.q}: performs the operation asked for", n >= 1, f.loc(), f"{n} call(s)")
            only(ctx, "server", f, {op}, "no other operation is called")
            if op == "list":
                d = level_member(p, f)
                flows(ctx, "server", f, CallPred(BACK + "list$"), {0: P(f, 1), 1: r"^false$|Full$", 2: d}, "request and level as received, duplicates are left to the client", allow=near(f))
            elif op == "axesIterator":
                flows(ctx, "server", f, CallPred(BACK + op + "$"), {0: P(f, 1), 1: level_member(p, f)}, "request and level as received", allow=near(f))
            elif op == "inspect":
                flows(ctx, "server", f, CallPred(BACK + op + "$"), {0: rf"^{par(f, 1)}\.(request\(\)|request_)$"}, "request as received", allow=near(f))
            else:
                flows(ctx, "server", f, CallPred(BACK + op + "$"), {0: P(f, 1)}, "request as received", allow=near(f))

    # ---- C interface
    capi(ctx)


def level_member(p, f):
    g = [h for h in p.fns.values() if h.cls == f.cls and h.name == "extraDecode"]
    fields = [r[0] for r in (p.classes.get(f.cls) or {}).get("fields", [])]
    return r"^this\.(" + "|".join(map(re.escape, map(last, fields))) + ")$" if fields else r"^this\.\w+$"


def copied(ctx, f):
    """the key handed on starts as a copy of the key given and only step and stepunits are rewritten"""
    p = ctx.p
    sym = Sym(p)
    bad, n = [], 0
    for g in below(p, f, lambda h: h.cls == f.cls or not h.cls):
        for i, inf in g.calls():
            if re.match(r"^fdb5::(Key|BaseKey)::(set|unset|push|pop|clear)$", inf["q"]) and g.args(i):
                n += 1
                s = sym.r(g, g.args(i)[0])
                if not re.match(r'^("(step|stepunits)"$|(const )?std::(basic_)?string\b[^"]*\("(step|stepunits)")', s):
                    bad.append((g.loc(i), f"the key given is changed: {last(inf['q'])}({s})"))
    ctx.ob("forward", f"{f.q}: only step and stepunits of the key are rewritten", not bad, bad[0][0] if bad else f.loc(), bad[0][1] if bad else f"{n} change(s)")


C = {  # function -> (C++ method, {argument: (parameter, regex with %s for the parameter)})
    "fdb_archive": (r"^fdb5::FDB::archive$", {0: (1, r"%s"), 1: (2, r"^%s$"), 2: (3, r"^%s$")}),
    "fdb_list": (r"^fdb5::FDB::list$", {}),
    "fdb_retrieve": (r"^fdb5::FDB::retrieve$", {0: (1, r"^%s\.request(\(\)|_)?")}),
    "fdb_wipe": (r"^fdb5::FDB::wipe$", {0: (1, r"%s\.request"), 1: (2, r"^%s$"), 2: (3, r"^%s$"), 3: (4, r"^%s$")}),
    "fdb_purge": (r"^fdb5::FDB::purge$", {0: (1, r"%s\.request"), 1: (2, r"^%s$"), 2: (3, r"^%s$")}),
    "fdb_flush": (r"^fdb5::FDB::flush$", {}),
    "fdb_key_add": (r"^fdb5::(Base)?Key::set$", {0: (1, r"%s"), 1: (2, r"%s")}),
    "fdb_datareader_read": (r"DataHandle::read$", {0: (1, r"^%s$"), 1: (2, r"^%s$")}),
    "fdb_datareader_seek": (r"DataHandle::seek$", {0: (1, r"%s")}),
    "fdb_datareader_skip": (r"DataHandle::skip$", {0: (1, r"%s")}),
    "fdb_datareader_open": (r"DataHandle::openForRead$", {}),
    "fdb_datareader_close": (r"DataHandle::close$", {}),
    "fdb_datareader_tell": (r"DataHandle::position$", {}),
    "fdb_datareader_size": (r"DataHandle::size$", {}),
    "fdb_request_add": (r"MarsRequest::values$", {0: (1, r"%s")}),
    "fdb_request_get": (r"MarsRequest::values$", {0: (1, r"%s")}),
}


def capi(ctx):
    p = ctx.p
    for q, (rx, args) in C.items():
        for f in p.find(q):
            al = lambda g: g.file == f.file or g.file.endswith("fdb_c.cc")
            deepflows(ctx, "c-api", f, CallPred(rx), {a: t % par(f, k) for a, (k, t) in args.items()}, "calls the library with its arguments", allow=al)
    for f in p.find("fdb_list"):
        al = lambda g: g.file == f.file
        # the documented meaning of the flag: are duplicates reported?
        deepflows(ctx, "c-api", f, CallPred(r"^fdb5::FDB::list$"), {1: rf"^\(?!\(?{par(f, 3)}\)*$|^\(?{par(f, 3)}\s*\?\s*(false|fdb5::ListMode::Full)\s*:\s*(true|fdb5::ListMode::Deduplicate)\)?$|^\(?!\(?{par(f, 3)}\)?\s*\?\s*(true|fdb5::ListMode::Deduplicate)\s*:\s*(false|fdb5::ListMode::Full)\)?$|^\(?(false==)?{par(f, 3)}(==false)\)?$|^\(?false=={par(f, 3)}\)?$"},
                  "duplicates are reported if and only if asked for", allow=al)
        deepflows(ctx, "c-api", f, CallPred(r"^fdb5::FDB::list$"), {2: rf"{par(f, 4)}|^local:"}, "the depth is passed on", allow=al)

    for f in p.find("fdb_list"):
        bad, n = [], 0
        for g in below(p, f, lambda h: h.file == f.file):
            for x in g.n:
                if x[0] == "assign" and g.n[x[3][0]][0] == "ref" and g.n[x[3][0]][2][1] == "local" and "int" in str(g.n[x[3][0]][2][3]):
                    n += 1
                    s = Sym(p).r(g, x[3][1])
                    if s not in ("3", "param:" + f.params[4][0]):
                        bad.append(s)
        ctx.ob("c-api", "fdb_list: an invalid depth means all levels", not bad, f.loc(), str(bad or n))
