"""Static decision of the durability of a flush. Interprocedural typestate exploration (clang CFG, resolved calls,
implicit destructors) of every flush entry point down to the system calls: each must reach the next layer on every path
that is not exempted by a 'nothing to do' or documented configuration condition, for every element of the container it
manages; every write to a table of contents is followed by fdatasync before the writer returns; the dirty marks that
control the exemptions are set by every archiving path; the results of the flush, sync and close calls are tested."""
from vt.engine import Engine, Rule
from vt.lib import AssignPred, CallPred, followed, last, must_pass, result_checked, zero

ASSUMPTIONS = [
    "eckit's BTree flush/sync, fdatasync wrapper and AIO handle flush do what their names say (outside the repository)",
    "containers iterated by a flush hold at least one element (an empty one has nothing to flush)",
]
FLOORS = {"flush-reaches": 12, "toc-write-synced": 6, "mark-set": 4, "sync-result": 6}

CONFIG_SYNC = [(r"(?i)sync", False)]


class SyncAfterWrite(Rule):
    """::write to a toc descriptor must be followed by fdatasync/fsync before the root returns"""

    def interesting(self, fn):
        if fn.file.startswith("fdb5/toc/"):
            for i, inf in fn.calls():
                if inf["q"] in ("write", "pwrite", "writev") or last(inf["q"]) in ("fdatasync", "fsync"):
                    return True
        return False

    def __init__(self, p):
        super().__init__(p)
        self.writes = 0

    def call(self, fr, st, i, inf):
        q = inf["q"]
        if q in ("write", "pwrite", "writev"):
            self.writes += 1
            return (("W", False),)
        if last(q) in ("fdatasync", "fsync"):
            return (("clean", False),)
        return None

    def assign(self, fr, st, i):
        x = fr.fn.n[i]
        if x[0] == "assign":
            s = self.sym.r(fr.fn, x[3][0], fr.env)
            if s.endswith("dirty_"):
                v = self.sym.r(fr.fn, x[3][1], fr.env)
                if v == "true":
                    return ((st[0], True),)
                if v == "false" and st[0] == "W":
                    return ((st[0], False),)
        return None

    def branch(self, fr, st, form, cond):
        if st[0] == "W":
            from vt.prog import implied
            for a, pol in implied(form):
                if a.endswith("dirty_") and not pol and st[1]:
                    return ()
                if a.endswith("fd_<0") and pol:
                    return ()
        return None


def run(ctx):
    p = ctx.p
    F = p.find

    def mp(q, targets, **kw):
        for f in F(q):
            must_pass(ctx, "flush-reaches", f, targets, **kw)

    # facade and lanes
    mp("fdb5::FDB::flush", [CallPred(r"^fdb5::(FDBBase|LocalFDB|RemoteFDB|SelectFDB|RandomFDB)::flush$")],
       sanction=[(r"dirty_$", False), (r"\.dirty\(\)$", False)], what="backend flushed unless nothing was archived")
    mp("fdb5::SelectFDB::flush", [CallPred(r"^fdb5::(FDBBase|LocalFDB|RemoteFDB)::flush$", obj=r"elem\(.*subFdbs_")], forall=r"subFdbs_",
       sanction=[(r"fdb_$|fdb\(\)$", False)], what="every open lane flushed")
    mp("fdb5::LocalFDB::flush", [CallPred(r"^fdb5::(Archiver|Reindexer)::flush$", obj=r"archiver_")],
       sanction=[(r"archiver_", False), (r"reindexer_", True)], what="archiver flushed unless none was created")
    mp("fdb5::LocalFDB::flush", [CallPred(r"^fdb5::(Archiver|Reindexer)::flush$", obj=r"reindexer_")],
       sanction=[(r"reindexer_", False), (r"archiver_", True)], what="reindexer flushed unless none was created")
    # all databases: store and catalogue
    mp("fdb5::Archiver::flush", [CallPred(r"Store::flush$", obj=r"elem\(.*databases_")], forall=r"databases_",
       what="store of every open database flushed", allow=lambda f: not f.cls.startswith("fdb5::Reindexer"))
    mp("fdb5::Archiver::flush", [CallPred(r"(CatalogueWriter|Catalogue)::flush$", obj=r"elem\(.*databases_")], forall=r"databases_",
       what="catalogue of every open database flushed")
    mp("fdb5::Archiver::<dtor>", [CallPred(r"Store::flush$")], what="open databases flushed when the archiver goes away",
       allow=lambda f: not f.cls.startswith("fdb5::Reindexer"), sanction=[(r"empty\(.*databases_", True)])
    mp("fdb5::FDB::<dtor>", [CallPred(r"^fdb5::(FDBBase|LocalFDB|RemoteFDB|SelectFDB|RandomFDB)::flush$")],
       sanction=[(r"dirty_$", False), (r"\.dirty\(\)$", False), (r"internal_$", False)],
       what="backend flushed on destruction unless nothing was archived")
    # stores
    mp("fdb5::TocStore::flush", [CallPred(r"(DataHandle|FDBFileHandle)::flush$", obj=r"elem\(.*handles_")], forall=r"handles_",
       sanction=zero(r"this\.archivedFields_"),
       what="every open data file flushed")
    mp("fdb5::FDBFileHandle::flush", [CallPred(r"^(std::)?fflush(_unlocked)?$", args={0: r"file_$"})], sanction=[(r"file_$", False)],
       what="stdio buffer flushed")
    mp("fdb5::FDBFileHandle::flush", [CallPred(r"(^|::)(fdatasync|fsync)$", args={0: r"file_"})],
       sanction=[(r"file_$", False)] + CONFIG_SYNC, what="file synchronised unless switched off by configuration")
    # indexes
    mp("fdb5::TocCatalogueWriter::flush", [CallPred(r"^fdb5::(Index|IndexBase|TocIndex)::flush$", obj=r"elem\(.*indexes_")],
       forall=r"indexes_", sanction=zero(r"this\.archivedLocations_") + [(r"dirty", False)],
       what="every dirty index flushed")
    mp("fdb5::TocCatalogueWriter::flush", [CallPred(r"^fdb5::TocHandler::writeIndexRecord$")],
       forall=r"indexes_", sanction=zero(r"this\.archivedLocations_") + [(r"dirty", False)],
       what="every flushed index is recorded in the table of contents")
    mp("fdb5::TocIndex::flush", [CallPred(r"BTreeIndex::flush$", obj=r"btree_")], sanction=[(r"dirty_$", False)],
       what="B-tree written out unless clean")
    mp("fdb5::TocIndex::flush", [CallPred(r"BTreeIndex::sync$", obj=r"btree_")], sanction=[(r"dirty_$", False)],
       what="B-tree synchronised unless clean")
    for c in sorted(p.subclasses("fdb5::BTreeIndex", strict=True)):
        for m in ("flush", "sync"):
            fs = p.method_index.get((c, m), [])
            for f in fs:
                must_pass(ctx, "flush-reaches", f, [CallPred(r"^eckit::BTree::" + m + "$")], what=f"eckit B-tree {m} called")
    # destruction of a writer flushes its indexes
    mp("fdb5::TocCatalogueWriter::<dtor>", [CallPred(r"^fdb5::(Index|IndexBase|TocIndex)::flush$")], forall=None,
       sanction=zero(r"this\.archivedLocations_") + [(r"dirty", False)],
       what="unflushed indexes flushed when the writer goes away")
    # remote: the flush request is sent and served
    mp("fdb5::remote::RemoteStore::flush", [CallPred(r"controlWrite(CheckResponse|ReadResponse)?$", args={0: r"Message::Flush"})],
       sanction=zero(r"this\.locations_\.\w+(\(\))?"),
       what="flush request sent to the store server")
    mp("fdb5::remote::RemoteCatalogue::flush", [CallPred(r"controlWrite(CheckResponse|ReadResponse)?$", args={0: r"Message::Flush"})],
       sanction=zero(r"this\.numLocations_"), what="flush request sent to the catalogue server")
    mp("fdb5::remote::StoreHandler::flush", [CallPred(r"Store::flush$")],
       sanction=zero(r"local:\w+"), what="server flushes the store")
    mp("fdb5::remote::CatalogueHandler::flush", [CallPred(r"Catalogue(Writer)?::flush$")],
       sanction=zero(r"local:(?!\w*([fF]ail|[eE]rr|[eE]xc|eptr))\w+"), what="server flushes the catalogue")

    # every toc writer synchronises before it returns
    writers = set()
    for f in p.fns.values():
        if f.cls == "fdb5::TocHandler":
            for i, inf in f.calls():
                if inf["q"] in ("write", "pwrite", "writev"):
                    writers.add(f.id)
    ctx.need(writers, "no ::write in TocHandler")
    reach = p.can_reach(writers)
    roots = []
    for fid in sorted(reach):
        f = p.fns[fid]
        if f.cls == "fdb5::TocHandler":
            if any(p.fns[c].cls != "fdb5::TocHandler" and not p.fns[c].parent_fn for c in p.callers.get(fid, ())):
                roots.append(f)
    for f in roots:
        r = SyncAfterWrite(p)
        e = Engine(p, r)
        n, _ = e.run(f, ("clean", False))
        ctx.count(r)
        bad = [s for s in n if s[0] == "W"]
        ctx.ob("toc-write-synced", f"{f.q}: written records are synchronised before return", not bad, f.loc(),
               e.path(f, bad[0]) if bad else f"{r.writes} write event(s) followed")

    # dirty marks
    for f in F("fdb5::TocStore::archive"):
        must_pass(ctx, "mark-set", f, [], assigns=[AssignPred(r"archivedFields_$", ops=("++", "p++", "+="))], what="archived field counted")
    for f in F("fdb5::TocIndex::add"):
        must_pass(ctx, "mark-set", f, [], assigns=[AssignPred(r"dirty_$", r"^true$")], what="index marked dirty")
    for f in F("fdb5::TocCatalogueWriter::archive"):
        must_pass(ctx, "mark-set", f, [], assigns=[AssignPred(r"archivedLocations_$", ops=("++", "p++", "+="))],
                  what="archived location counted")
    BACKEND = r"^fdb5::(FDBBase|LocalFDB|RemoteFDB|SelectFDB|RandomFDB)::(archive|reindex)$"
    for f in F("fdb5::FDB::archive") + F("fdb5::FDB::reindex"):
        # every public overload marks the object dirty
        followed(ctx, "mark-set", f, [CallPred(BACKEND)], [], f"({', '.join(x[2] for x in f.params)}) object marked dirty",
                 tassign=[AssignPred(r"dirty_$", r"^true$")], either=True, allow=lambda f: f.cls in ("fdb5::FDB", ""))

    # results of the calls that make things durable
    Q = {"fflush", "fdatasync", "eckit::fdatasync", "fsync", "eckit::fsync", "fclose", "close"}
    FILES = ("fdb5/toc/TocHandler.cc", "fdb5/io/FDBFileHandle.cc", "fdb5/io/LustreFileHandle.h", "fdb5/toc/TocIndex.cc",
             "fdb5/toc/TocStore.cc", "fdb5/toc/BTreeIndex.cc")
    for f in sorted(p.fns.values(), key=lambda f: f.id):
        if f.file not in FILES or f.kind == "dtor":
            continue
        for i, inf in f.calls():
            if inf["q"] in Q:
                if i not in {e for b in f.blocks.values() for e in b[0] if isinstance(e, int)}:
                    continue
                ok, why = result_checked(p, f, i)
                ctx.ob("sync-result", f"{f.q}: result of {inf['q']}", ok, f.loc(i), why)
