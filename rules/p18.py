"""Which lock protects which shared datum is written down once (the table below); the guards in force at every access follow from
the blocks around it and, through a fixpoint over all call sites, from the callers. Every access outside construction and
destruction must hold the lock of the same object. Flags that are shared without a lock must be atomic, locks must outlive the
call, and what is found in a protected container is not used after its lock is released unless nobody removes it."""
import re

from vt.locks import TOP, Locks, last

TECHNIQUE = "lockset analysis (scoped guards, interprocedural must-hold fixpoint) against a table of guarded data; atomicity of shared flags; escape of references to guarded data"
ASSUMPTIONS = ["the guard table lists the data shared between threads; data that is not listed is confined to one thread or immutable once threads run",
               "an object is built and destroyed by one thread", "guards are scoped objects (std::lock_guard and the like)"]
FLOORS = {"guarded": 25, "lock": 60}

R = "fdb5::remote::"
# lock -> data. A datum may be followed by the functions that may touch it without the lock, and why
TABLE = {
    "fdb5::Archiver::flushMutex_": ["databases_", "db_"],
    "fdb5::AxisRegistry::mutex_": ["axes_"],
    "fdb5::CatalogueReaderFactory::mutex_": ["builders_"],
    "fdb5::CatalogueWriterFactory::mutex_": ["builders_"],
    "fdb5::StoreFactory::mutex_": ["builders_", "fieldLocationStoreMapping_"],
    "fdb5::FieldLocationFactory::mutex_": [("builders_", "remove")],      # run-time removal of a builder: static destruction only
    "fdb5::FDBFactory::mutex_": ["registry_"],
    "fdb5::Config::schemaMutex_": ["schemaPath_", "schemaPathInitialised_"],
    "fdb5::EnvVarFileSpaceHandler::mutex_": [],
    "fdb5::ExpverFileSpaceHandler::mutex_": ["table_"],
    "fdb5::FDB::mutex_": [("dirty_", "operator=")],
    "fdb5::Inspector::mutex_": ["databases_"],
    "fdb5::LocalFDB::mutex_": ["archiver_", "inspector_", "reindexer_"],
    "fdb5::SelectFDB::FDBLane::mutex_": ["fdb_", "flushCallback_", "archiveCallback_"],
    "fdb5::RemoteFDB::messageQueueMutex_": ["messageQueues_"],
    "fdb5::SchemaRegistry::m_": ["schemas_"],
    # maintenance (clean, close) and the old interface (index) run while nobody archives
    "fdb5::TocCatalogueWriter::mutex_": [("archivedLocations_", "archivedLocations", "clean", "close", "index"), ("indexes_", "clean", "close", "index"), ("fullIndexes_", "clean", "close", "index"),
                                         ("current_", "index"), ("currentFull_", "index"), ("currentIndexKey_", "index")],
    "fdb5::TocStore::handlesMutex_": ["handles_"],
    "fdb5::TypesRegistry::cacheMutex_": ["cache_"],
    R + "CatalogueHandler::wipesMutex_": ["wipesInProgress_"],
    R + "ServerConnection::handlerMutex_": ["numControlConnection_", "numDataConnection_", "numDataListener_", R + "CatalogueHandler::fdbs_", R + "CatalogueHandler::catalogues_",
                                            R + "CatalogueHandler::fdbControlConnection_", R + "CatalogueHandler::fdbDataConnection_", R + "StoreHandler::stores_"],
    R + "ServerConnection::readLocationMutex_": ["readLocationWorker_"],
    R + "CatalogueHandler::fieldLocationsMutex_": [R + "CatalogueArchiver::" + x for x in ("locationsArchived", "locationsExpected", "archivalFailure", "fieldLocationsReceived")],
    R + "ClientConnection::clientsMutex_": ["clients_"],
    R + "ClientConnection::dataWriteMutex_": ["dataWriteThread_"],
    R + "ClientConnection::idMutex_": ["id_"],
    R + "ClientConnection::promisesMutex_": ["promises_"],
    R + "ClientConnectionRouter::connectionMutex_": ["connections_"],
    R + "Locations::locationMutex_": ["closed_", "completionRequested_", "failure_", ("fieldsArchived_", "archived"), "locationsReceived_", "locations_", "promiseArchivalCompleted_"],
    R + "ReadLimiter::mutex_": ["activeRequests_", "memoryUsed_", "requests_", "resultSizes_"],
    R + "RemoteStore::messageMutex_": ["messageQueues_"],
    R + "RemoteStore::get::storeMutex_": [R + "RemoteStore::get::readStores_"],
    R + "Client::setClientID::idMutex_": [R + "Client::setClientID::clientId_"],
    "fdb5::engineTypesMutex": ["fdb5::engineTypes"],
    "fdb5::pathNamerMutex": ["fdb5::dbPathNamers"],
    "fdb5::fileSpacesMutex": ["fdb5::spacesTables", "fdb5::marsRootsTable"],
    "fdb5::local_mutex@fdb5/database/Engine.cc": [("fdb5::m@fdb5/database/Engine.cc", "init")],
    "fdb5::local_mutex@fdb5/database/IndexFactory.cc": [("fdb5::m@fdb5/database/IndexFactory.cc", "init")],
    "fdb5::local_mutex@fdb5/toc/FileSpaceHandler.cc": [("fdb5::m@fdb5/toc/FileSpaceHandler.cc", "init")],
    "fdb5::local_mutex@fdb5/types/TypesFactory.cc": [("fdb5::m@fdb5/types/TypesFactory.cc", "init")],
}
# flags that several threads touch without a lock
ATOMIC = [R + "Connection::closingSocket_", R + "Connection::isValid_", R + "Client::deregistered_", R + "Locations::storeRequested_"]
# what is found under the lock and used after it: the entry lives until its client says goodbye, which it does not while it archives
STABLE = {(R + "CatalogueHandler::catalogues_", "archiveBlob"), (R + "CatalogueHandler::catalogues_", "flush")}


def exempt(p, L, f, free, depth=0):
    """one of the functions named, or a helper that only they use"""
    if not free:
        return False
    if last(f.q) in free:
        return True
    ss = {p.family(g)[-1].id: p.family(g)[-1] for g, _ in L.sites().get(f.id, [])}
    ss = [g for g in ss.values() if g.id != f.id and not (L.building(g) and L.kin(f, g))]
    return bool(ss) and depth < 4 and all(exempt(p, L, g, free, depth + 1) for g in ss)


def run(ctx):
    p = ctx.p
    L = Locks(p)
    data = {}
    for lock, ds in TABLE.items():
        cls = lock.split("@")[0].rsplit("::", 1)[0]
        for d in ds:
            n, *free = (d,) if isinstance(d, str) else d
            data[n if "::" in n else f"{cls}::{n}"] = (lock, free)
    # the data that the analysed program has (a part that is gone cannot race)
    acc = {d: [] for d in data}
    fields = {f"{c}::{row[0]}": row[1] for c, k in p.classes.items() for row in k.get("fields", ())}
    for f in p.fns.values():
        if f.file.startswith("fdb5/tools/"):
            continue
        for i, x in enumerate(f.n):
            if x[0] not in ("mem", "ref"):
                continue
            if x[0] == "ref" and (x[2][1] not in ("global", "static", "local")):
                continue
            for b, d in ((b, d) for b, d in L.place(f, i)) if x[0] == "mem" or x[2][1] != "local" else ():
                if d in acc:
                    acc[d].append((f, i, b))
    nonauto(ctx, p, L)
    for d, (lock, free) in sorted(data.items()):
        cls = d.split("@")[0].rsplit("::", 1)[0]
        shared = d in fields
        lcls = lock.split("@")[0].rsplit("::", 1)[0]
        rows = []
        for f, i, b in acc[d]:
            home = p.family(f)[-1]
            if shared and L.building(home) and home is f and (home.cls == cls or cls in p.superclasses(home.cls or "")) and (b == "this" or any(b == "param:" + q[0] and q[2].rstrip().endswith("&&") for q in home.params)):
                continue
            if exempt(p, L, home, free):
                continue
            h = L.held(f, i, own=shared and not (L.building(home) and b != "this"))
            if h is TOP:
                continue
            rows.append((f, i, {m for bb, m in h if bb in (b, "", "*") or not related(p, cls, lcls)}))
        if not rows:
            continue
        every = set().union(*(s for *_, s in rows))
        best = max(sorted(every), key=lambda m: (sum(m in s for *_, s in rows), m == lock), default=None)
        bad = [f"{f.loc(i)} in {p.family(f)[-1].q}" for f, i, s in rows if best not in s]
        ctx.ob("guarded", f"every access to {d} holds {best or lock}", not bad, rows[0][0].loc(rows[0][1]), f"{len(rows)} accesses; unprotected: {bad[:4]}" if bad else f"{len(rows)} accesses")
        escapes(ctx, p, L, d, best, acc[d], free)
    # flags read by one thread and written by another, without a lock
    for d in ATOMIC:
        if d in fields:
            t = fields[d]
            ok = "std::atomic" in t
            if not ok:
                ls = [L.held(f, i) for f in p.fns.values() for i, x in enumerate(f.n) if x[0] == "mem" and x[2][1] == d and not L.building(f)]
                common = None
                for h in ls:
                    if h is not TOP:
                        common = {m for _, m in h} if common is None else common & {m for _, m in h}
                ok = bool(common)
            ctx.ob("atomic", f"{d} may be read while another thread writes it", ok, d, f"type {t}")


def related(p, a, b):
    return a == b or a in p.superclasses(b) or b in p.superclasses(a)


def nonauto(ctx, p, L):
    """a lock excludes others only if they can get at the same mutex"""
    for f in p.fns.values():
        if f.file.startswith("fdb5/tools/"):
            continue
        for v, ms, _ in L.guards(f):
            if not re.search(r"mutex|Mutex", f.n[v][2]["t"]):
                continue        # a lock on a file
            bad = []
            for m in ms:
                for b, q in m:
                    n = q.rsplit("::", 1)[-1]
                    for g in p.family(f):
                        for dd, k in g.vars.items():
                            x = g.n[k][2]
                            if b == "" and q == f"{p.family(f)[-1].q}::{n}" and x["n"] == n and not x.get("static") and not x["t"].rstrip().endswith(("&", "*")):
                                bad.append(n)
            ctx.ob("lock", f"{p.family(f)[-1].q}: a guard of {sorted({q for m in ms for _, q in m})}", not bad, f.loc(v), f"the mutex {bad} is an automatic variable: nobody else can hold it" if bad else "")


def escapes(ctx, p, L, d, lock, uses, free):
    """an iterator into a protected container is used while the lock is held"""
    if lock is None:
        return
    bad, n = [], 0
    for f, i, b in uses:
        home = last(p.family(f)[-1].q)
        if (d, home) in STABLE or L.building(p.family(f)[-1]) or exempt(p, L, p.family(f)[-1], free):
            continue
        # the variable that receives it
        decl = None
        for a in f.ancestors(i):
            x = f.n[a]
            if x[0] == "var":
                if re.search(r"iterator", x[2]["t"]):
                    decl = x[2]["d"]
                break
            if x[0] in ("block", "return", "if", "while"):
                break
            if x[0] == "assign" and x[3] and i in set(f.walk(x[3][1])) or x[0] == "call" and last(x[2]["q"]) == "operator=" and x[3]:
                t = L.strip(f, x[3][0] if x[0] == "assign" else (f.obj(a) if f.obj(a) is not None else f.args(a)[0]))
                if f.n[t][0] == "ref" and f.n[t][2][2] in f.vars and re.search("iterator", f.n[f.vars[f.n[t][2][2]]][2]["t"]):
                    decl = f.n[t][2][2]
                break
        if decl is None:
            continue
        n += 1
        for j, y in enumerate(f.n):
            if y[0] == "ref" and y[2][2] == decl:
                h = L.held(f, j)
                if h is TOP or lock in {m for _, m in h}:
                    continue
                if any(f.n[a][0] == "assign" and y in [f.n[k] for k in f.walk(f.n[a][3][0])] for a in f.ancestors(j)):
                    continue
                bad.append(f"{f.loc(j)} in {p.family(f)[-1].q}")
    if n:
        ctx.ob("guarded", f"what is found in {d} is used under the lock", not bad, uses[0][0].loc(uses[0][1]), f"used after the lock is released: {bad[:4]}" if bad else f"{n} iterators")
