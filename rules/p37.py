"""Static decision that unflushed work is remembered. (1) every archiving entry sets the mark of its component on every path;
(2) at every place that clears a mark, the flush it stands for has completed normally on every path, including paths on which
the flush threw and the exception was handled; (3) cached writers and open files are flushed before they are dropped;
(4) the mark follows the state when the facade object is moved."""
from vt.lib import AssignPred, CallPred, class_entries, followed, last, must_pass, ordered, zero
from vt.prog import Sym

TECHNIQUE = "interprocedural typestate analysis with exceptional edges: mark set after work, cleared only after a completed flush"
ASSUMPTIONS = ["BTree and stdio flush functions report failure by exception or return value (checked by P01)"]
FLOORS = {"mark-set": 7, "mark-cleared-after-flush": 7, "flushed-before-drop": 4, "mark-moved": 2}

BACKEND = r"^fdb5::(FDBBase|LocalFDB|RemoteFDB|SelectFDB|RandomFDB)::"

# class, member, value meaning "clean", the flush that must have completed, functions not entered
MARKS = [
    ("fdb5::FDB", "dirty_", r"^false$", [CallPred(BACKEND + "flush$")], ()),
    ("fdb5::TocIndex", "dirty_", r"^false$", [CallPred(r"BTreeIndex::sync$")], ()),
    ("fdb5::TocStore", "archivedFields_", r"^0$", [CallPred(r"(DataHandle|FDBFileHandle)::flush$")], ()),
    ("fdb5::TocCatalogueWriter", "archivedLocations_", r"^0$", [CallPred(r"Index(Base)?::flush$"), CallPred(r"^fdb5::TocHandler::writeIndexRecord$")], ()),
    ("fdb5::TocHandler", "dirty_", r"^false$", [CallPred(r"(^|::)f(data)?sync$")], ()),
    ("fdb5::remote::RemoteCatalogue", "numLocations_", r"^0$", [CallPred(r"controlWrite(CheckResponse|ReadResponse)$", args={0: r"Message::Flush"})], ()),
]


def run(ctx):
    p = ctx.p
    F = p.find
    sym = Sym(p)

    # 1. marks are set
    for f in F("fdb5::FDB::archive") + F("fdb5::FDB::reindex"):
        followed(ctx, "mark-set", f, [CallPred(BACKEND + "(archive|reindex)$")], [],
                 f"({', '.join(x[2] for x in f.params)}) object marked dirty", tassign=[AssignPred(r"dirty_$", r"^true$")],
                 either=True, allow=lambda g: g.cls in ("fdb5::FDB", ""))
    for q, lhs, rhs, ops in (("fdb5::TocStore::archive", r"archivedFields_$", None, ("++", "p++", "+=", "=")),
                             ("fdb5::DaosStore::archive", r"archivedFields_$", None, ("++", "p++", "+=", "=")),
                             ("fdb5::TocIndex::add", r"dirty_$", r"^true$", ("=",)),
                             ("fdb5::TocCatalogueWriter::archive", r"archivedLocations_$", None, ("++", "p++", "+=", "=")),
                             ("fdb5::TocCatalogueWriter::index", r"archivedLocations_$", None, ("++", "p++", "+=", "=")),
                             ("fdb5::remote::RemoteCatalogue::archive", r"numLocations_$", None, ("++", "p++", "+=", "=")),
                             ("fdb5::remote::Locations::archive", r"fieldsArchived_$", None, ("++", "p++", "+=", "="))):
        for f in F(q):
            must_pass(ctx, "mark-set", f, [], assigns=[AssignPred(lhs, rhs, ops)], what="work is marked as unflushed")
    for f in F("fdb5::remote::RemoteStore::archiveCb"):
        must_pass(ctx, "mark-set", f, [CallPred(r"Locations::archive$")], what="pending location registered")
    wr = {f.id for f in p.fns.values() if f.cls == "fdb5::TocHandler" and any(inf["q"] in ("write", "pwrite", "writev") for _, inf in f.calls())}
    ctx.need(wr, "no ::write in TocHandler")
    for fid in sorted(wr):
        followed(ctx, "mark-set", p.fns[fid], [CallPred(r"^(write|pwrite|writev)$")], [], "toc marked as written",
                 tassign=[AssignPred(r"dirty_$", r"^true$")], either=True)

    # 2. marks are cleared only after the flush completed
    for cls, mem, val, first, _ in MARKS:
        ap = AssignPred(r"^this\." + mem + "$", val)
        holders = set()
        for f in p.fns.values():
            if f.cls != cls or f.kind == "ctor":
                continue
            for i, x in enumerate(f.n):
                if x[0] == "assign" and sym.r(f, x[3][0]) == "this." + mem and __import__("re").search(val, sym.r(f, x[3][1])):
                    holders.add(f.id)
                if x[0] == "call" and x[2]["k"] in ("op", "m") and last(x[2]["q"]) in ("operator=", "store", "exchange") and x[3] and sym.r(f, x[3][0]) == "this." + mem:
                    holders.add(f.id)
        ctx.need(holders, f"{cls}::{mem} is never cleared")
        for f in class_entries(p, cls, holders):
            ordered(ctx, "mark-cleared-after-flush", f, first, [], f"{mem} cleared only after a completed flush", tassign=[ap], exc=True, need_then=False,
                    sanction=[(r"^empty\(", True), (r"\bdirty(\(\))?$", False)])
    for f in F("fdb5::remote::RemoteStore::flush"):
        ordered(ctx, "mark-cleared-after-flush", f, [CallPred(r"controlWrite(CheckResponse|ReadResponse)$", args={0: r"Message::Flush"})],
                [CallPred(r"Locations::reset$")], "pending count reset only after the server confirmed the flush", exc=True)
    # the B-tree flush counts only together with the sync
    for f in F("fdb5::TocIndex::flush"):
        ordered(ctx, "mark-cleared-after-flush", f, [CallPred(r"BTreeIndex::flush$")], [], "B-tree flushed before the index counts as clean",
                tassign=[AssignPred(r"^this\.dirty_$", r"^false$")], exc=True)
    for f in F("fdb5::TocCatalogueWriter::flush"):
        ordered(ctx, "mark-cleared-after-flush", f, [CallPred(r"Index(Base)?::flush$")], [], "indexes flushed before the writer counts as clean",
                tassign=[AssignPred(r"^this\.archivedLocations_$", r"^0$")], exc=True, sanction=[(r"dirty", False)])

    # 3. flushed before dropped
    drop = [CallPred(r"::(erase|clear|extract|swap)$", obj=r"databases_$")]
    holders = {f.id for f in p.fns.values() if f.cls == "fdb5::Archiver" and f.kind != "lambda" and
               any(last(inf["q"]) in ("erase", "clear", "extract", "swap") and f.obj(i) is not None and sym.r(f, f.obj(i)).endswith("databases_") for i, inf in f.calls())}
    for f in class_entries(p, "fdb5::Archiver", holders):
        ordered(ctx, "flushed-before-drop", f, [CallPred(r"Catalogue(Writer)?::flush$")], drop,
                "database flushed before it is evicted", exc=True, allow=lambda g: not g.cls.startswith("fdb5::Reindexer"))
    for f in F("fdb5::Archiver::<dtor>"):
        must_pass(ctx, "flushed-before-drop", f, [CallPred(r"Catalogue(Writer)?::flush$")], what="open databases flushed on destruction",
                  allow=lambda g: not g.cls.startswith("fdb5::Reindexer"), sanction=[(r"empty\(.*databases_", True)])
    for f in F("fdb5::TocCatalogueWriter::<dtor>"):
        ordered(ctx, "flushed-before-drop", f, [CallPred(r"Index(Base)?::flush$")], [CallPred(r"^fdb5::Index(Base)?::close$")],
                "indexes flushed before they are closed", sanction=zero(r"this\.archivedLocations_") + [(r"dirty", False)])
    for f in F("fdb5::FDB::<dtor>"):
        must_pass(ctx, "flushed-before-drop", f, [CallPred(BACKEND + "flush$")], what="facade flushed on destruction",
                  sanction=[(r"dirty_$", False), (r"\.dirty\(\)$", False), (r"internal_$", False)])
    # an index is reopened (its B-tree dropped) only when it has been flushed
    reop = {f.id for f in p.fns.values() if any(inf["q"] == "fdb5::Index::reopen" for _, inf in f.calls())}
    for fid in sorted(reop):
        f = p.fns[fid]
        ordered(ctx, "flushed-before-drop", f, [CallPred(r"^fdb5::Index(Base)?::flush$")], [CallPred(r"^fdb5::Index(Base)?::reopen$")],
                "index flushed before it is reopened", sanction=[(r"dirty", False)], reset=True)

    # 4. moves of the facade
    for f in F("fdb5::FDB::<ctor>") + F("fdb5::FDB::operator="):
        if not f.params or "FDB &&" not in f.params[0][2]:
            continue
        src = f"param:{f.params[0][0]}"
        ok = False
        for it in f.inits:
            if it[0] == "field" and it[1].endswith("dirty_") and src + ".dirty_" in sym.r(f, it[2]):
                ok = True
        for i, x in enumerate(f.n):
            if x[0] == "assign" and sym.r(f, x[3][0]) == "this.dirty_" and src + ".dirty_" in sym.r(f, x[3][1]):
                ok = True
            if x[0] == "call" and last(x[2]["q"]) == "swap" and any("dirty_" in sym.r(f, a) for a in x[3]):
                ok = True
        ctx.ob("mark-moved", f"{f.q}(FDB&&): the mark moves with the backend", ok, f.loc(), "")
