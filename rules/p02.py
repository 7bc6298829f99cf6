"""Static decision of the publication order. Interprocedural typestate exploration of every function that announces
something (index record, sub-toc record, INIT record, catalogue flush) down to the announcing call: on no path is the
announcement reached before what it announces is complete (index flushed, sub-toc initialised, schema copied and renamed
into place, stores flushed, field locations received)."""
from vt.engine import Engine, Rule
from vt.lib import CallPred, last, ordered
from vt.prog import atoms

TECHNIQUE = "interprocedural typestate analysis: announcing call only after the completing call, per index, on every path"
ASSUMPTIONS = [
    "rename(2) is atomic and a toc record becomes visible only through ::write",
    "eckit's DataHandle::copyTo writes the whole source and closes the destination",
]
FLOORS = {"index-before-record": 1, "store-before-catalogue": 3, "schema-before-init": 3, "subtoc-before-record": 1,
          "flush-order": 3, "locations-before-flush": 2}

FLUSH = {"fdb5::Index::flush", "fdb5::IndexBase::flush", "fdb5::TocIndex::flush"}
ANNOUNCE = {"fdb5::TocHandler::writeIndexRecord", "fdb5::TocHandler::buildIndexRecord"}


class IndexFirst(Rule):
    """the state is the set of indexes (by access path) flushed since they were last changed"""

    def __init__(self, p):
        super().__init__(p)
        self.sites, self.bad = {}, {}

    def interesting(self, fn):
        return any(inf["q"] in FLUSH | ANNOUNCE for _, inf in fn.calls())

    def call(self, fr, st, i, inf):
        q = inf["q"]
        if q in FLUSH:
            s = self.sym.r(fr.fn, fr.fn.obj(i), fr.env)
            return (st | {s},)
        if q in ANNOUNCE:
            a = fr.fn.args(i)
            s = self.sym.r(fr.fn, a[-1], fr.env)
            self.sites[(fr.fn.id, i)] = fr.fn.loc(i)
            ok = any(s == x or s.startswith(x + ".") or x.startswith(s + ".") for x in st)
            if not ok:
                self.bad[(fr.fn.id, i)] = (fr.fn.loc(i), q, fr.chain(), s)
            return (st,)
        if q in ("fdb5::Index::put", "fdb5::IndexBase::put", "fdb5::TocIndex::add"):
            s = self.sym.r(fr.fn, fr.fn.obj(i), fr.env)
            return (frozenset(x for x in st if x != s),)
        return None

    def branch(self, fr, st, form, cond):
        # a branch on which the index is known to be clean: nothing to flush
        from vt.prog import implied
        for a, pol in implied(form):
            if a.endswith(".dirty()") and not pol:
                x = a[: -len(".dirty()")]
                return (st | {x, x.replace(".content_", "")},)
        return None

    def loopexit(self, fr, st, header, how, line):
        # the loop variable denotes another element afterwards
        return (frozenset(x for x in st if "elem(" not in x),) if st else None


class BackEdge(IndexFirst):
    pass


def entry_points(p, ids, inside):
    """functions from which ids are reachable and that are called from outside the set, or not at all"""
    reach = p.can_reach(ids)
    out = []
    for fid in sorted(reach):
        f = p.fns[fid]
        if fid in ids or f.kind == "lambda" or f.cls.startswith(inside):
            continue
        cs = [c for c in p.callers.get(fid, ()) if c in reach and c != fid]
        if not cs:
            out.append(f)
    return out


def run(ctx):
    p = ctx.p
    F = p.find

    # 1. an index is flushed before a record announces it
    ann = [f for q in ANNOUNCE for f in F(q)]
    direct = set()
    for f in p.fns.values():
        for i, inf in f.calls():
            if inf["q"] in ANNOUNCE and f.cls != "fdb5::TocHandler" and not f.cls.startswith("fdb5::TocHandler::"):
                direct.add(f.id)
    ctx.need(direct, "nobody announces indexes")
    # start from the callers when the announced index is handed in as a parameter
    roots, w, seen = [], sorted(direct), set()
    while w:
        fid = w.pop()
        if fid in seen:
            continue
        seen.add(fid)
        f = p.fns[fid]
        byparam = False
        from vt.prog import Sym
        sym = Sym(p)
        for i, inf in f.calls():
            if inf["q"] in ANNOUNCE and sym.r(f, f.args(i)[-1]).startswith("param:"):
                byparam = True
        cs = [c for c in p.callers.get(fid, ())]
        if (byparam or fid not in direct) and cs and f.acc != "public" if hasattr(f, "acc") else byparam and cs:
            w += cs
        else:
            roots.append(f)
    for f in sorted(set(roots), key=lambda f: f.id):
        r = IndexFirst(p)
        e = Engine(p, r)
        e.run(f, frozenset())
        ctx.count(r)
        b = sorted(r.bad.values())
        ctx.ob("index-before-record", f"{f.q}: index flushed before its record is built", not b, b[0][0] if b else f.loc(),
               f"{b[0][1]}({b[0][3]}) without a preceding flush of that index; {b[0][2]}" if b else f"{len(r.sites)} announcing site(s)")

    # 2. stores are flushed before the catalogue, for each database
    cat = [f.id for f in p.fns.values() if f.name == "flush" and f.cls in p.subclasses("fdb5::Catalogue")]
    reach = p.can_reach(cat)
    n = 0
    for f in sorted(p.fns.values(), key=lambda f: f.id):
        if f.cls == "fdb5::Archiver" and f.id in reach and f.kind in ("method", "dtor"):
            n += 1
            ordered(ctx, "store-before-catalogue", f, [CallPred(r"Store::flush$")], [CallPred(r"Catalogue(Writer)?::flush$")],
                    "store flushed before its catalogue", allow=lambda g: not g.cls.startswith("fdb5::Reindexer"), reset=True, need_then=False)
    F("fdb5::Archiver::flush"), F("fdb5::Archiver::selectDatabase")

    # 3. initialisation of a database
    SUB = [(r"isSubToc_$", True)]
    for f in F("fdb5::TocHandler::writeInitRecord"):
        ordered(ctx, "schema-before-init", f, [CallPred(r"(LocalPathName|PathName)::rename$|^rename$")],
                [CallPred(r"^fdb5::TocHandler::append(Round|Raw|Block)?$"), CallPred(r"^write$")],
                "schema renamed into place before the INIT record", sanction=SUB)
        ordered(ctx, "schema-before-init", f, [CallPred(r"DataHandle::(copyTo|saveInto)$", args={0: r"^local:|FileHandle"})],
                [CallPred(r"(LocalPathName|PathName)::rename$|^rename$")], "schema copied before it gets its final name")
        # the copy goes to the file that is renamed, never directly to the final name
        from vt.prog import Sym
        sym = Sym(p)
        fns = [p.fns[x] for x in p.reachable([f], stop=lambda g: g.cls != "fdb5::TocHandler") if p.fns[x].cls == "fdb5::TocHandler" or x == f.id]
        dests, ren = [], []
        for g in fns:
            for i, inf in g.calls():
                if last(inf["q"]) in ("copyTo", "saveInto") and "DataHandle" in inf["q"]:
                    a = g.args(i)[0]
                    n = g.n[a]
                    while n[0] in ("cast", "un") and n[3]:
                        n = g.n[n[3][0]]
                    if n[0] == "ref" and n[2][1] == "local":
                        vd = p.vardef(g, n[2][2])
                        dests.append((g, i, sym.r(vd[0], vd[0].n[vd[1]][3][0])))
                    else:
                        dests.append((g, i, sym.r(g, a)))
                if last(inf["q"]) == "rename" and "PathName" in inf["q"]:
                    ren.append((g, i, sym.r(g, g.args(i)[0]), sym.r(g, g.args(i)[1]) if len(g.args(i)) > 1 else ""))
        # cachedToc_ copies (reading) are not schema copies
        dests = [d for d in dests if "cachedToc_" not in d[2] and "dump" not in d[0].name.lower()]
        for g, i, d in dests:
            final = {x[3] for x in ren}
            # the destination expression must not be the final path itself
            bad = any(fp and d in (f"eckit::FileHandle({fp},false)", f"eckit::FileHandle({fp})") for fp in final)
            ok = bool(ren) and not bad and any(x[2] in d for x in ren)
            ctx.ob("schema-before-init", f"{g.q}: schema written under a temporary name", ok, g.loc(i), d[:120])

    # 4. a sub-toc is initialised before the master toc refers to it
    for f in F("fdb5::TocHandler::writeIndexRecord"):
        ordered(ctx, "subtoc-before-record", f, [CallPred(r"^fdb5::TocHandler::writeInitRecord$", obj=r"subToc")],
                [CallPred(r"^fdb5::TocHandler::writeSubTocRecord$")], "sub-toc initialised before it is announced")

    # 5. inside an index and a data file: contents pushed out before they are synchronised, and both before "clean"
    for f in F("fdb5::TocIndex::flush"):
        ordered(ctx, "flush-order", f, [CallPred(r"BTreeIndex::flush$")], [CallPred(r"BTreeIndex::sync$")], "B-tree flushed before it is synchronised")
    for f in F("fdb5::FDBFileHandle::flush"):
        ordered(ctx, "flush-order", f, [CallPred(r"^(std::)?fflush$")], [CallPred(r"(fdatasync|fsync)$")], "stdio buffer flushed before fdatasync")
    for f in F("fdb5::TocHandler::close"):
        ordered(ctx, "flush-order", f, [CallPred(r"(fdatasync|fsync)$")], [CallPred(r"^close$")], "toc synchronised before its descriptor is closed",
                sanction=[(r"dirty_$", False)])

    # 6. remote: all locations of the flushed fields have arrived before the flush goes ahead
    for f in F("fdb5::remote::RemoteStore::flush"):
        ordered(ctx, "locations-before-flush", f, [CallPred(r"Locations::(complete|wait)$")],
                [CallPred(r"controlWrite(CheckResponse|ReadResponse)?$", args={0: r"Message::Flush"})], "field locations awaited before the flush request")
    for f in F("fdb5::remote::CatalogueHandler::flush"):
        ordered(ctx, "locations-before-flush", f, [CallPred(r"std::(__basic_future|future|shared_future)::(wait|get)$")],
                [CallPred(r"Catalogue(Writer)?::flush$")], "all locations archived before the catalogue is flushed")
