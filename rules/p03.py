"""Static decision of the archive chain. Interprocedural path counting (each step of the chain happens exactly once on every
path to a normal exit), provenance of every value handed on (canonical access paths of arguments, followed through helpers,
lambdas and captures), and typestate of the write position; flush publishes only on the branch on which both counts agree."""
import re

from vt.lib import AssignPred, CallPred, deferred, flows, guarded, last, member_values, must_pass, never_after, ordered, par, result_checked, stores, tally
from vt.prog import Sym

TECHNIQUE = "interprocedural path counting, argument provenance and typestate of the write position along the archive chain"
ASSUMPTIONS = ["eckit::DataHandle::position() of an append handle is the offset at which the next write lands (checked for FDBFileHandle)",
               "DataHandle::write returns the number of bytes accepted"]
FLOORS = {"stored-once": 4, "same-keys": 4, "location": 8, "counts": 8, "publish-guard": 1}

INC = ("++", "p++", "+=", "=")
STORE_WRITE = r"^(fdb5::DaosStore|fdb5::TocStore)::archive$"


def run(ctx):
    p = ctx.p
    F = p.find
    sym = Sym(p)

    # 1. the visitor stores each datum once and catalogues the returned location under the same keys
    for f in F("fdb5::ArchiveVisitor::selectDatum"):
        cb = CallPred(r"^fdb5::Store::archive(Cb)?$")
        tally(ctx, "stored-once", f, [cb], "each datum is handed to the store once", allow=lambda g: "Visitor" in g.cls or not g.cls)
        flows(ctx, "same-keys", f, cb, {0: r"catalogue\(\)\.currentIndexKey\(\)$|catalogue_\.currentIndexKey\(\)$", 1: r"^this\.data_$", 2: r"this\.size_"},
              "current index key, data and size reach the store", allow=lambda g: "Visitor" in g.cls or not g.cls)
        put = CallPred(r"^fdb5::CatalogueWriter::archive$")
        vis = lambda g: "Visitor" in g.cls or not g.cls
        reach = p.can_reach({g.id for g in p.fns.values() if g.cls in p.subclasses("fdb5::CatalogueWriter") and g.name == "archive"})
        lams = [(g, e) for g, e in deferred(ctx, f, cb, allow=vis) if g.id in reach]
        ctx.need(lams, "no callback from the store to the catalogue found")
        for g, env in lams:
            tally(ctx, "stored-once", g, [put], "the callback enters the field in the catalogue once", env=env)
            flows(ctx, "same-keys", g, put, {0: r"currentIndexKey\(\)$", 1: par(f, 0), 2: par(g, 0)},
                  "index key, datum key and returned location reach the catalogue", obj=r"catalogue(_|\(\))", env=env)
    for f in F("fdb5::Store::archiveCb"):
        tally(ctx, "stored-once", f, [CallPred(r"^fdb5::Store::archive$", args={0: par(f, 0), 1: par(f, 1), 2: par(f, 2)})], "synchronous store is called once with its arguments")
        tally(ctx, "stored-once", f, [CallPred(r"operator\(\)$", obj=par(f, 3), args={0: r"this\.archive\(" + par(f, 0)})], "the callback gets the location which the store returned, once")

    # 2. file store: where the bytes go is what the location says
    for f in F("fdb5::TocStore::archive"):
        w = CallPred(r"DataHandle::write$")
        tally(ctx, "location", f, [w], "one write per field")
        tally(ctx, "location", f, [CallPred(r"DataHandle::write$", args={0: par(f, 1), 1: par(f, 2)})], "the whole of the data given is written")
        ordered(ctx, "location", f, [CallPred(r"DataHandle::position$")], [w], "offset taken before the write")
        never_after(ctx, "location", f, [w], [CallPred(r"DataHandle::position$")], "offset not taken after the write")
        n = 0
        for g in [p.fns[x] for x in p.reachable([f], stop=lambda h: h.cls != "fdb5::TocStore")]:
            if g.cls != "fdb5::TocStore":
                continue
            for i, inf in g.calls():
                if re.search(r"DataHandle::write$", inf["q"]):
                    n += 1
                    ok, why = result_checked(p, g, i)
                    ctx.ob("location", f"{g.q}: length written is checked", ok, g.loc(i), why)
        mk = CallPred(r"^std::make_unique$|TocFieldLocation::<ctor>$", args={2: r"length"})
        flows(ctx, "location", f, mk, {0: r"getDataPath\(" + par(f, 0) + r"\)", 1: r"getDataHandle\((.*)\)\.position\(\)$", 2: r"^(eckit::Length\()?" + par(f, 2)},
              "location holds the path, the offset and the length of the write")
        flows(ctx, "location", f, w, {}, "written to the handle of the same path", obj=r"getDataHandle\((this\.)?getDataPath\(" + par(f, 0) + r"\)\)|getDataHandle\(.*getDataPath\(" + par(f, 0))
    for f in F("fdb5::TocFieldLocation::<ctor>"):
        base = [g for g in f.calls()] if False else None
        for i, x in enumerate(f.n):
            if x[0] == "new" and x[2]["q"] == "fdb5::FieldLocation::<ctor>" and len(f.args(i)) == 4 and len(f.params) == 4:
                a = [sym.r(f, y) for y in f.args(i)]
                ok = all(re.search(par(f, k), a[k]) for k in range(4))
                ctx.ob("location", f"{f.q}({f.params[0][2]}): base receives uri, offset, length and remap key in place", ok, f.loc(i), str(a))
    for f in F("fdb5::FieldLocation::<ctor>"):
        if len(f.params) == 4:
            stores(ctx, "location", f, {"uri_": par(f, 0), "offset_": par(f, 1), "length_": par(f, 2), "remapKey_": par(f, 3)}, "members hold the arguments")
    for f in F("fdb5::FieldRefLocation::<ctor>"):
        if len(f.params) == 2 and "Field &" in f.params[1][2]:
            L = par(f, 1) + r"\.(location_|location\(\))\."
            stores(ctx, "location", f, {"uriId_": par(f, 0) + r"\.insert\(" + L + r"uri(_|\(\))\)", "offset_": L + "offset", "length_": L + "length"},
                   "reference holds the offset and length of the location")
    for f in F("fdb5::TocIndex::add"):
        tally(ctx, "location", f, [CallPred(r"BTreeIndex::set$", args={0: par(f, 0) + r"\.valuesToString"})], "entry set once under the datum key")
        flows(ctx, "location", f, CallPred(r"fdb5::FieldRef::<ctor>$"), {0: r"^this\.", 1: par(f, 1)}, "reference built from the field",
              allow=lambda g: g.cls == "fdb5::TocIndex" or not g.cls)
    for f in F("fdb5::TocIndex::get"):
        R = r"\.(location_\.|)(%s)"
        flows(ctx, "location", f, CallPred(r"^fdb5::FieldLocationFactory::build$"),
              {1: r"this\.uris_\.get\(.*uriId", 2: r"offset", 3: r"length", 4: par(f, 1)}, "location rebuilt from the reference that was found")
    for f in F("fdb5::FDBFileHandle::position"):
        stores_ok = any(x[0] == "return" and x[3] and sym.r(f, x[3][0]).endswith("this.pos_") or x[0] == "return" and "this.pos_" in sym.r(f, x[3][0]) for x in f.n)
        ctx.ob("location", f"{f.q}: reports the write position", stores_ok, f.loc(), "")
    for f in F("fdb5::FDBFileHandle::write"):
        must_pass(ctx, "location", f, [], assigns=[AssignPred(r"^this\.pos_$", None, ("+=", "="))], what="position advances with each write",
                  )
        for i, x in enumerate(f.n):
            if x[0] == "assign" and sym.r(f, x[3][0]) == "this.pos_":
                s = sym.r(f, x[3][1])
                ctx.ob("location", f"{f.q}: position advances by the number of bytes written", bool(re.search(par(f, 1) + r"|fwrite\(", s)), f.loc(i), s)
            if x[0] == "call" and last(x[2]["q"]) == "operator+=" and sym.r(f, x[3][0]) == "this.pos_":
                s = sym.r(f, x[3][1])
                ctx.ob("location", f"{f.q}: position advances by the number of bytes written", bool(re.search(par(f, 1) + r"|fwrite\(", s)), f.loc(i), s)

    # 3. object store
    for f in F("fdb5::DaosStore::archive"):
        w = CallPred(r"(DataHandle|DaosArray\w*)::write$")
        tally(ctx, "location", f, [CallPred(r"(DataHandle|DaosArray\w*)::write$", args={0: par(f, 1), 1: par(f, 2)})], "one write of the whole datum", allow=lambda g: g.cls == "fdb5::DaosStore" or not g.cls)
        flows(ctx, "location", f, CallPred(r"^std::make_unique$|DaosFieldLocation::<ctor>$", args={2: "length"}),
              {0: r"createArrayName", 1: r"^0$|Offset\(0\)", 2: par(f, 2)}, "location names the array that was written, offset 0 and the full length",
              allow=lambda g: g.cls == "fdb5::DaosStore" or not g.cls)
        flows(ctx, "location", f, w, {}, "written through the handle of the array named in the location", obj=r"createArrayName", allow=lambda g: g.cls == "fdb5::DaosStore" or not g.cls)
    for q in ("fdb5::TocCatalogueWriter::archive", "fdb5::DaosCatalogueWriter::archive"):
        for f in F(q):
            cl = f.cls
            put = CallPred(r"^fdb5::Index::put$", obj=r"\.current_$")
            tally(ctx, "stored-once", f, [put], "entry put in the current index once", allow=lambda g: g.cls == cl or not g.cls)
            flows(ctx, "same-keys", f, CallPred(r"^fdb5::Index::put$"), {0: par(f, 1)}, "put under the datum key", allow=lambda g: g.cls == cl or not g.cls)
            flows(ctx, "same-keys", f, CallPred(r"^fdb5::Field::<ctor>$"), {0: par(f, 2)}, "field made from the location given", allow=lambda g: g.cls == cl or not g.cls)
    for f in F("fdb5::TocCatalogueWriter::archive"):
        own = lambda g: g.cls == "fdb5::TocCatalogueWriter" or not g.cls
        K = par(f, 0)
        ordered(ctx, "same-keys", f, [CallPred(r"createIndex\w*$", args={0: K})], [CallPred(r"^fdb5::Index::put$")],
                "the index of the index key given is current when the entry is put",
                sanction=[(rf"^{K}==this\.currentIndexKey_$", True), (rf"^this\.currentIndexKey_=={K}$", True), (rf"selectIndex\w*\({K}\)$", True)], allow=own)
        tally(ctx, "stored-once", f, [CallPred(r"^fdb5::Index::put$", obj=r"\.currentFull_$")], "with sub-tocs, put once in the full index",
              sanction=[(r"useSubToc", False)], allow=own)
    for q in ("fdb5::TocCatalogueWriter::selectIndexUnlocked", "fdb5::TocCatalogueWriter::createIndexUnlocked"):
        for f in p.find(q, required=False):
            K = par(f, 0)
            for m, rx in (("currentIndexKey_", "^" + K + "$"), ("current_", r"indexes_\.(find|emplace|at|try_emplace|insert)\(" + K + r"|indexes_\[" + K), ("currentFull_", r"fullIndexes_\.(find|emplace|at|try_emplace|insert)\(" + K + r"|fullIndexes_\[" + K)):
                v = member_values(p, f).get(m, [])
                ctx.ob("same-keys", f"{f.q}: {m} is that of the index key given", bool(v) and all(re.search(rx, s) and (m != "current_" or "fullIndexes_" not in s) for s in v), f.loc(), str(v)[:300])

    # 4. remote
    for f in F("fdb5::remote::RemoteStore::archiveCb"):
        own = lambda g: g.cls == "fdb5::remote::RemoteStore" or not g.cls
        dw = CallPred(r"Client::dataWrite$")
        tally(ctx, "stored-once", f, [dw], "one blob per field", allow=own)
        tally(ctx, "counts", f, [CallPred(r"Locations::archive$", args={1: par(f, 3)})], "one pending location per field", allow=own)
        ordered(ctx, "location", f, [CallPred(r"Locations::archive$")], [dw], "callback registered before the blob is sent", allow=own)
        flows(ctx, "same-keys", f, CallPred(r"vector::emplace_back$|vector::push_back$|Payload", args={0: par(f, 2)}), {1: par(f, 1)}, "data and length reach the message", allow=own)
        ids = []
        for i, inf in f.calls():
            if last(inf["q"]) == "dataWrite" and "Client" in inf["q"]:
                ids.append(("w", f.n[f.args(i)[1]]))
            if inf["q"].endswith("Locations::archive"):
                ids.append(("a", f.n[f.args(i)[0]]))
        ref = {k: x[2][3] if x[0] == "ref" and len(x[2]) > 3 else None for k, x in ids}
        v = {k: (x[2][:2] if x[0] == "ref" else None) for k, x in ids}
        if len(v) == 2:
            ctx.ob("location", f"{f.q}: location is expected for the request under which the blob is sent", v["w"] is not None and v["w"] == v["a"], f.loc(), str(v))
    for f in F("fdb5::remote::Locations::archive"):
        v = [(sym.r(f, x[3][0]), sym.r(f, x[3][1])) for x in f.n if (x[0] == "call" and last(x[2]["q"]) == "operator=" and len(x[3]) > 1)] + \
            [(sym.r(f, f.obj(i)) + "[" + sym.r(f, f.args(i)[0]) + "]", sym.r(f, f.args(i)[1])) for i, inf in f.calls() if last(inf["q"]) in ("emplace", "insert_or_assign", "try_emplace") and len(f.args(i)) > 1]
        ok = any(re.search(r"locations_\[" + par(f, 0), a) and re.search(par(f, 1), b) for a, b in v)
        ctx.ob("location", f"{f.q}: callback registered under its request", ok, f.loc(), str(v)[:200])
    for f in F("fdb5::remote::Locations::location"):
        tally(ctx, "stored-once", f, [CallPred(r"operator\(\)$", args={0: par(f, 1)})], "the registered callback gets the location once",
              sanction=[(r"==.*end\(this\.locations_\)|end\(this\.locations_\)==|contains\(", True)])
        flows(ctx, "same-keys", f, CallPred(r"map::(find|extract|at)$"), {0: par(f, 0)}, "callback looked up by request")
    for f in F("fdb5::remote::RemoteStore::handle"):
        loc = CallPred(r"Locations::location$")
        if any(loc(sym, type("Fr", (), {"fn": f, "env": {}})(), i, inf) for i, inf in f.calls()):
            pass
    for f in F("fdb5::remote::RemoteCatalogue::archive"):
        enc = [(last(inf["q"]), [sym.r(f, a) for a in f.args(i)]) for i, inf in f.calls() if last(inf["q"]) == "operator<<"]
        own = lambda g: g.cls == "fdb5::remote::RemoteCatalogue" or not g.cls
        tally(ctx, "stored-once", f, [CallPred(r"Client::dataWrite$")], "one entry message per field", allow=own)
        for k in range(3):
            nm = "param:" + f.params[k][0]
            ok = any(any(nm in a for a in ar[1:]) for _, ar in enc) or any(nm in sym.r(f, f.obj(i)) for i, inf in f.calls() if last(inf["q"]) == "encode" and f.obj(i) is not None)
            ctx.ob("same-keys", f"{f.q}: parameter {k} is sent", ok, f.loc(), "")

    # 5. counts
    for q, m in (("fdb5::TocStore::archive", "archivedFields_"), ("fdb5::DaosStore::archive", "archivedFields_"),
                 ("fdb5::TocCatalogueWriter::archive", "archivedLocations_"), ("fdb5::TocCatalogueWriter::index", "archivedLocations_"),
                 ("fdb5::remote::RemoteCatalogue::archive", "numLocations_"), ("fdb5::remote::Locations::archive", "fieldsArchived_")):
        for f in F(q):
            tally(ctx, "counts", f, [], f"{m} counts the field once", assigns=[AssignPred(r"^this\." + m + "$", None, INC)])
    for f in F("fdb5::remote::Locations::location"):
        tally(ctx, "counts", f, [], "locationsReceived_ counts the location once", assigns=[AssignPred(r"^this\.locationsReceived_$", None, INC)],
              sanction=[(r"==.*end\(this\.locations_\)|end\(this\.locations_\)==|contains\(", True)])
    for f in F("fdb5::TocStore::flush") + F("fdb5::DaosStore::flush"):
        # the count returned is the one accumulated: read before it is reset
        never_read_after_reset(ctx, f)
    for f in sorted(p.fns.values(), key=lambda g: g.id):
        if f.cls == "fdb5::Archiver" and f.kind != "lambda" and any(last(inf["q"]) == "flush" and re.search(r"::Catalogue(Writer)?::flush$", inf["q"]) for _, inf in f.calls()):
            for i, inf in f.calls():
                if re.search(r"::Catalogue(Writer)?::flush$", inf["q"]):
                    a = sym.r(f, f.args(i)[0])
                    o = sym.r(f, f.obj(i))
                    ok = bool(re.search(r"store_\.flush\(\)$", a))
                    b1, b2 = a.split(".store_")[0], re.split(r"\.(catalogue_|catalogue\(\))", o)[0]
                    ctx.ob("counts", f"{f.q}: catalogue is told how many fields its own store flushed", ok and b1 == b2, f.loc(i), f"{o}.flush({a})")
    for f in F("fdb5::TocCatalogueWriter::flush"):
        P = par(f, 0)
        guarded(ctx, "publish-guard", f, [CallPred(r"^fdb5::TocHandler::(writeIndexRecord|buildIndexRecord)$"), CallPred(r"^fdb5::Index(Base)?::flush$")],
                [(rf"^{P}==this\.archivedLocations_$", True), (rf"^this\.archivedLocations_=={P}$", True)], "index records are published only if both counts agree")


def never_read_after_reset(ctx, f):
    from vt.engine import Engine, Rule
    sym = Sym(ctx.p)

    class R(Rule):
        nonempty = False

        def __init__(self, p):
            super().__init__(p)
            self.bad = {}
            self.sites = set()

        def interesting(self, g):
            return g.cls == f.cls and AssignPred(r"archivedFields_$").quick(g)

        def assign(self, fr, st, i):
            x = fr.fn.n[i]
            if x[0] == "assign" and x[2] == "=" and self.sym.r(fr.fn, x[3][0], fr.env) == "this.archivedFields_" and self.sym.r(fr.fn, x[3][1], fr.env) == "0":
                self.sites.add(i)
                return ("reset",)
            return None

        def element(self, fr, st, i):
            x = fr.fn.n[i]
            if st == "reset" and x[0] == "cast" and x[3] and fr.fn.n[x[3][0]][0] == "mem" and fr.fn.n[x[3][0]][2][0] == "archivedFields_":
                self.bad[(fr.fn.id, i)] = fr.fn.loc(i)
            return None

    r = R(ctx.p)
    Engine(ctx.p, r).run(f, "idle")
    ctx.count(r)
    rets = [sym.r(f, x[3][0]) for x in f.n if x[0] == "return" and x[3]]
    ok = any("archivedFields_" in s for s in rets) and all(s == "0" or "archivedFields_" in s for s in rets) and not r.bad
    # 0 may only be returned when nothing was archived
    if "0" in rets:
        from vt.engine import Engine as E2
        from vt.lib import zero

        class Z(Rule):
            def __init__(self, p):
                super().__init__(p)
                self.badz = {}

            def interesting(self, g):
                return False

            def branch(self, fr, st, form, cond):
                from vt.lib import sanctioned
                return ("zero",) if sanctioned(form, zero(r"this\.archivedFields_")) else None

            def element(self, fr, st, i):
                x = fr.fn.n[i]
                if x[0] == "return" and x[3] and sym.r(fr.fn, x[3][0]) == "0" and st != "zero":
                    self.badz[i] = fr.fn.loc(i)
                return None
        z = Z(ctx.p)
        E2(ctx.p, z).run(f, "some")
        ok = ok and not z.badz
    ctx.ob("counts", f"{f.q}: returns the number of fields archived since the last flush", ok, f.loc(), f"returns {rets}; reads after reset: {sorted(r.bad.values())}")
