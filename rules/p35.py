"""Static decision of "on object storage nothing is published before what it refers to": order of the puts of the DAOS backend."""
import re

from vt.lib import CallPred, below, flows, guarded, never_after, ordered, par, pathfacts
from vt.prog import Sym

TECHNIQUE = "order of the object-store updates (path facts over the interprocedural CFG) and provenance of what is published"
ASSUMPTIONS = ["DAOS updates are visible in the order they are made and are durable when they return"]
FLOORS = {"db": 2, "index": 2, "field": 3}

PUT = CallPred(r"^fdb5::DaosKeyValue::put$")


def run(ctx):
    p = ctx.p
    F = p.find
    sym = Sym(p)

    # 1. a database: schema and key before the entry of the root key-value
    W = "fdb5::DaosCatalogueWriter"
    own = lambda g: g.cls in (W, "fdb5::DaosCatalogue") or not g.cls
    for f in [g for g in p.fns.values() if g.kind == "ctor" and g.cls == W and len(g.params) == 2 and "Key" in g.params[0][2]]:
        MAIN = CallPred(PUT.q.pattern, args={0: r"db_cont_"})
        KEY = CallPred(PUT.q.pattern, args={0: r'^"key"$|\("key",'})
        SCH = CallPred(r"DataHandle::(copyTo|saveInto)$|^fdb5::DaosKeyValue::put$", args={0: r'"schema"|dataHandle|local:'})
        pathfacts(ctx, "db", f, {"h": r"\.has\(this\.db_cont_\)$", "h0": r"^0==.*\.size\(this\.db_cont_\)$"}, "a database is published after its schema and its key are stored", boolean=False, allow=own,
                  events={"m": [MAIN], "k": [KEY], "s": [SCH]}, at=[(MAIN, lambda d, fr, i: None if d.get("k") and d.get("s") else "the database is published before its schema and key are stored"),
                  (CallPred(r"DaosCatalogue::loadSchema$"), lambda d, fr, i: "the database was not published" if d.get("h") is not True and d.get("h0") is not False and not d.get("m") else None)], need_hits=True,
                  check=lambda o, d: None if d.get("h") or d.get("h0") is False or d.get("m") else "the database was neither there nor published")
        flows(ctx, "db", f, MAIN, {1: r"catalogue_kv|local:nstr|URI"}, "what is published is where the database's catalogue is", allow=own)
        for g in below(p, f, own):
            for i, x in enumerate(g.n):
                if x[0] == "new" and re.search(r"FileHandle::<ctor>$", x[2]["q"]):
                    ctx.ob("db", f"{g.q}: the schema stored is the one configured", "schemaPath" in sym.r(g, g.args(i)[0]), g.loc(i), sym.r(g, g.args(i)[0])[:80])
            for i, inf in g.calls():
                if KEY(sym, type("X", (), {"fn": g, "env": None})(), i, inf):
                    ctx.ob("db", f"{g.q}: the key stored is the database's", any(c["q"].endswith("operator<<") and "dbKey_" in " ".join(sym.r(g, a) for a in g.args(j)) for j, c in g.calls()), g.loc(i))

    # 2. an index: its object and key before the entry of the catalogue key-value
    IX = CallPred(r"^fdb5::DaosIndex::<ctor>$", args={2: r"DaosName\("})
    for f in F(W + "::selectIndex"):
        ordered(ctx, "index", f, [IX], [PUT], "an index is published after it was created", allow=own, exc=True)
        flows(ctx, "index", f, PUT, {0: par(f, 0) + r"\.valuesToString\(\)|currentIndexKey_", 1: r"location|local:"}, "an index is published under its key", allow=own)
        flows(ctx, "index", f, IX, {0: f"^{par(f, 0)}$|currentIndexKey_"}, "an index is created with its key", allow=own)
    for f in [g for g in p.fns.values() if g.kind == "ctor" and g.cls == "fdb5::DaosIndex" and len(g.params) == 3]:
        pathfacts(ctx, "index", f, {}, "a new index is stored with its key", allow=lambda g: g.cls == f.cls or not g.cls, events={"k": [CallPred(PUT.q.pattern, args={0: r'^"key"$|\("key",'})]},
                  check=lambda o, d: None if d.get("k") else "the index is created without its key")
    # only these publish
    for f in sorted(p.fns.values(), key=lambda g: g.id):
        if not f.file.startswith("fdb5/"):
            continue
        for i, inf in f.calls():
            if PUT.q.search(inf["q"]):
                ok = p.family(f)[-1].cls in (W, "fdb5::DaosIndex", "fdb5::DaosCatalogue", "fdb5::DaosKeyValueHandle", "fdb5::DaosKeyValue") or not f.cls
                ctx.ob("index", f"{f.q}: entries are put by the catalogue only", ok, f.loc(i))

    # 3. a field: its array before its entry
    for f in F("fdb5::DaosStore::archive"):
        WR = CallPred(r"DataHandle::write$|DaosArray\w*::write$")
        one = lambda g: g.cls == f.cls or not g.cls
        pathfacts(ctx, "field", f, {}, "a field is written before its location is known", allow=one, events={"w": [WR]},
                  check=lambda o, d: None if d.get("w") else "a location is returned though nothing was written")
        flows(ctx, "field", f, WR, {0: f"^{par(f, 1)}$", 1: f"^{par(f, 2)}"}, "the whole field is written", allow=one)
        flows(ctx, "field", f, CallPred(r"make_unique|make_shared|FieldLocation::<ctor>$"), {0: r"createArrayName\(|local:\w+\.URI\(\)", 2: f"^{par(f, 2)}"}, "the location returned is that of the array written", allow=one)
    for f in F("fdb5::DaosArrayHandle::write"):
        flows(ctx, "field", f, CallPred(r"DaosArray::write$"), {0: f"^{par(f, 0)}$", 1: f"^{par(f, 1)}$"}, "what is given is written")
    for f in [g for g in F("fdb5::Store::archiveCb") if g.blocks]:
        AR = CallPred(r"^fdb5::Store::archive$")
        CB = CallPred(r"std::function::operator\(\)$")
        ordered(ctx, "field", f, [AR], [CB], "the field is indexed after it was stored", allow=lambda g: g.cls == f.cls or not g.cls)
        flows(ctx, "field", f, CB, {0: r"archive\("}, "the field is indexed where it was stored", allow=lambda g: g.cls == f.cls or not g.cls)
    for f in F("fdb5::DaosIndex::add"):
        flows(ctx, "field", f, CallPred(PUT.q.pattern), {0: par(f, 0) + r"\.valuesToString\(\)"}, "a field is entered under its key", allow=lambda g: g.cls == f.cls or not g.cls)
        ordered(ctx, "field", f, [CallPred(r"operator<<$", args={1: par(f, 1)})], [PUT], "an entry is complete when it is stored")
