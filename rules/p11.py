"""Static decision of "access locks bind every operation": each operation that opens a database consults the lock of its own kind
before it acts; a database is accessible only if both its configuration and its lock files say so; locks are looked up on disk."""
import re

from vt.lib import CallPred, flows, guarded, par, pathfacts
from vt.prog import Sym

TECHNIQUE = "path-sensitive guard analysis of every operation that opens a database (lock of its own kind), truth conditions of the access predicates, provenance of the configured access state"
ASSUMPTIONS = ["LocalPathName::exists asks the file system", "the DAOS and FAM backends document that they have no locks (enabled() is constantly true)"]
FLOORS = {"operation": 8, "predicate": 4, "config": 6}

CI = r"fdb5::ControlIdentifier::"
KINDS = ("List", "Retrieve", "Archive", "Wipe")


def run(ctx):
    p = ctx.p
    F = p.find
    sym = Sym(p)

    def en(kind):
        return rf"\benabled\({CI}{kind}\)"

    # 1. every operation consults its own kind first
    V = "fdb5::api::local::"
    for q, kind in ((V + "ListVisitor::visitDatabase", "List"), (V + "PurgeVisitor::visitDatabase", "Wipe"), (V + "WipeCatalogueVisitor::visitDatabase", "Wipe")):
        for f in F(q):
            own = lambda g, c=f.cls: g.cls == c or not g.cls

            def at(d, fr, i):
                return None if d.get("en") else "acts on a database without having found that it is accessible"

            ACTS = [CallPred(r"Queue::(emplace|push)$"), CallPred(r"^fdb5::Catalogue\w*::(wipeInit|control|purgeVisitor)$"), CallPred(r"^fdb5::PurgeVisitor::")]
            pathfacts(ctx, "operation", f, {"en": en(kind)}, f"a database is entered only if not locked ({kind})", at=[(a, at) for a in ACTS], allow=own,
                      check=lambda o, d: None if o is False or d.get("en") else "a database is visited though it may be locked")
    for f in F(V + "PurgeVisitor::catalogueComplete"):
        own = lambda g, c=f.cls: g.cls == c or not g.cls
        guarded(ctx, "operation", f, [CallPred(r"^fdb5::(PurgeVisitor|EntryVisitor)::(catalogueComplete|gatherAuxiliaryURIs|report|purge)$", obj="internalVisitor_")],
                [(r"^this\.internalVisitor_(\.get\(\))?$", True)], "nothing is purged in a database that was refused", allow=own)
    for f in F(V + "WipeCatalogueVisitor::catalogueComplete"):
        own = lambda g, c=f.cls: g.cls == c or not g.cls
        guarded(ctx, "operation", f, [CallPred(r"::finaliseWipeState$"), CallPred(r"Queue::emplace$")], [(r"^this\.catalogueWipeState_(\.get\(\))?$", True)], "nothing is wiped in a database that was refused", allow=own)
    for q in ("fdb5::MultiRetrieveVisitor::selectDatabase", "fdb5::RetrieveVisitor::selectDatabase"):
        for f in F(q):
            own = lambda g, c=f.cls: g.cls == c or not g.cls
            guarded(ctx, "operation", f, [CallPred(r"^fdb5::Catalogue\w*::open$"), CallPred(r"CacheLRU::insert$")], [(en("Retrieve"), True)], "a database is opened for reading only if not locked (Retrieve)", allow=own)
    for f in F("fdb5::Archiver::selectDatabase"):
        own = lambda g, c=f.cls: g.cls == c or not g.cls
        guarded(ctx, "operation", f, [CallPred(r"^fdb5::Catalogue\w*::buildStore$"), CallPred(r"^std::map::(emplace|insert|insert_or_assign|try_emplace)$", obj=r"databases_$"), CallPred(r"^fdb5::Database::operator=$")],
                [(en("Archive"), True)], "a database is opened for writing only if not locked (Archive)", allow=own)
    H = "fdb5::remote::CatalogueHandler"
    built = False
    for f in sorted(p.fns.values(), key=lambda g: g.id):
        if f.cls != H or not f.blocks or f.kind != "method":
            continue
        ins = [i for i, inf in f.calls() if re.search(r"^std::map::(emplace|insert|insert_or_assign|try_emplace|operator\[\])$", inf["q"]) and f.obj(i) is not None and sym.r(f, f.obj(i)) == "this.catalogues_"]
        if not ins:
            continue
        built = True
        own = lambda g, c=f.cls: g.cls == c or not g.cls
        guarded(ctx, "operation", f, [CallPred(r"^std::map::(emplace|insert|insert_or_assign|try_emplace|operator\[\])$", obj=r"^this\.catalogues_$")], [(en("Archive"), True)],
                "the server opens a database for a writing client only if not locked (Archive)", allow=own)
    ctx.ob("operation", "the server keeps the databases of writing clients", built, "src/fdb5/remote/server/CatalogueHandler.cc")
    for f in F(V + "MoveVisitor::visitDatabase"):
        own = lambda g, c=f.cls: g.cls == c or not g.cls
        for kind in ("Archive", "Wipe"):
            guarded(ctx, "operation", f, [CallPred(r"^fdb5::(EntryVisitor|MoveVisitor)::visitDatabase$"), CallPred(r"Catalogue\w*::moveVisitor$")], [(en(kind), False)],
                    f"a database is moved only while locked ({kind})", allow=own)

    # 2. accessible: neither the configuration nor a lock forbids it
    for f in F("fdb5::TocCatalogue::enabled"):
        k = par(f, 0)
        pathfacts(ctx, "predicate", f, {"cfg": rf"controlIdentifiers_\.value_&{k}\)|CatalogueImpl::enabled", "lock": rf"this\.enabled\({k}\)|\.exists\(\)"}, "accessible only if neither configured otherwise nor locked",
                  allow=lambda g: g is f,
                  check=lambda o, d: None if o is False or d.get("cfg") is False and d.get("lock") is True else "a database counts as accessible without both its configuration and its locks having been asked")
    for f in F("fdb5::TocCatalogueWriter::enabled"):
        k = par(f, 0)

        def chk(o, d):
            if o is False or d.get("cfg") is False and d.get("lock") is True:
                return None
            return "a database counts as accessible though its configuration or locks may forbid it"

        pathfacts(ctx, "predicate", f, {"cfg": rf"controlIdentifiers_\.value_&{k}\)", "lock": rf"this\.enabled\({k}\)"}, "accessible only if the database is", check=chk, allow=lambda g: g is f)
    for f in F("fdb5::TocHandler::enabled"):
        k = par(f, 0)
        pathfacts(ctx, "predicate", f, {"ex": rf"directory_.*controlfile_lookup\.(find|at)\({k}\).*exists\(\)"}, "locked exactly if the lock file of this kind exists in the database's directory", allow=lambda g: g is f,
                  check=lambda o, d: None if o is True and d.get("ex") is False or o is False and d.get("ex") is True else "the answer does not tell whether the lock file exists")
    for f in F("fdb5::ControlIdentifiers::enabled"):
        k = par(f, 0)
        pathfacts(ctx, "predicate", f, {"bit": rf"value_&.*{k}|{k}.*&this\.value_"}, "disabled exactly if the bit is set",
                  check=lambda o, d: None if o is not None and d.get("bit") is (not o) else "the answer does not tell whether the kind is disabled")

    # 3. the configured access of roots
    for f in [g for g in p.fns.values() if g.kind == "ctor" and g.cls == "fdb5::Root"]:
        if len(f.params) < 6:
            continue
        sets = [CallPred(r"ControlIdentifiers::operator\|=$")]
        pars = {k: par(f, n) for n, k in ((2, "List"), (3, "Retrieve"), (4, "Archive"), (5, "Wipe"))}
        for kind, k in pars.items():
            ev = CallPred(r"ControlIdentifiers::operator\|=$", args={0: rf"{CI}{kind}$"})
            pathfacts(ctx, "config", f, {"on": f"^{k}$"}, f"a root configured not to allow it is disabled ({kind})", events={"e": [ev]}, boolean=False,
                      check=lambda o, d: "a root is not disabled though configured so" if d.get("on") is False and not d.get("e") else "a root is disabled though not configured so" if d.get("on") and d.get("e") else
                      None if "on" in d else "the configuration is not looked at")
    for f in sorted(p.fns.values(), key=lambda g: g.id):
        if f.cls != "fdb5::RootManager" or not f.blocks:
            continue
        for i, x in enumerate(f.n):
            if x[0] == "new" and x[2]["q"].startswith("fdb5::Root::") and len(f.args(i)) == 6:
                a = [sym.r(f, j) for j in f.args(i)]
                if not any("getBool" in t for t in a):
                    continue
                want = ("list", "retrieve", "archive", "wipe")
                ok = all("getBool(" in t and f'"{w}"' in t and not any(f'"{o}"' in t for o in want if o != w) for w, t in zip(want, a[2:]))
                ctx.ob("config", f"{f.q}: access of a root is read from its own settings", ok, f.loc(i), "" if ok else str(a[2:])[:200])
    for f in F("fdb5::FileSpace::enabled"):
        k = par(f, 0)
        guarded(ctx, "config", f, [CallPred(r"^std::(vector|set|list)::(push_back|emplace_back|insert|emplace)$")], [(rf"controlIdentifiers_\.value_&{k}\)", False), (rf"elem\(this\.roots_\)\.enabled\({k}\)", True)],
                "only roots that allow it", allow=lambda g: g.cls == f.cls or not g.cls)
    for f in F("fdb5::FileSpace::existsDB"):
        own = lambda g: g.cls == "fdb5::FileSpace"
        out = par(f, 2)
        flows(ctx, "config", f, CallPred(r"ControlIdentifiers::operator=$"), {0: r"^elem\(this\.roots_\)\.controlIdentifiers"}, "a database takes the access of the root it lies in", obj=rf"{out}\.controlIdentifiers_", allow=own)
        must = [CallPred(r"ControlIdentifiers::operator=$"), CallPred(r"TocPath::operator=$")]
        DIR = CallPred(r"PathName::operator=$", obj=rf"{out}\.directory_")
        pathfacts(ctx, "config", f, {}, "the access is taken from the same root as the directory", events={"d": [DIR], "c": must}, kills=[([DIR], ["c"])], boolean=False, need_hits=True, allow=own,
                  check=lambda o, d: "a path returns a database without the access of its root" if d.get("d") and not d.get("c") else None)
    for f in [g for g in p.fns.values() if g.name == "selectFileSystem" and g.blocks]:
        own = lambda g, c=f.cls: g.cls == c or not g.cls
        for i, inf in f.calls():
            if inf["q"] == "fdb5::FileSpace::enabled":
                ok = sym.r(f, f.args(i)[0]).endswith("ControlIdentifier::Archive")
                ctx.ob("config", f"{f.q}: a new database goes to a root that allows archiving", ok, f.loc(i))
    for q, kind in (("fdb5::RootManager::visitableRoots", "List"), ("fdb5::RootManager::canArchiveRoots", "Archive"), ("fdb5::RootManager::canMoveToRoots", "Wipe")):
        for f in F(q):
            if any(inf["q"] == "fdb5::FileSpace::enabled" for _, inf in f.calls()):
                flows(ctx, "config", f, CallPred(r"^fdb5::FileSpace::enabled$"), {0: CI + kind}, "roots of this kind", allow=lambda g: g is f)
                for i, inf in f.calls():
                    if inf["q"] in ("fdb5::FileSpace::all", "fdb5::FileSpace::roots"):
                        ctx.ob("config", f"{f.q}: only roots of this kind", False, f.loc(i))
    # every catalogue of the file-based backend is given the access of its root
    for f in sorted(p.fns.values(), key=lambda g: g.id):
        # writers are opened by URI for reconsolidation only, which is none of the operations of this property
        if f.kind == "ctor" and f.cls in ({"fdb5::TocCatalogue"} | set(p.subclasses("fdb5::TocCatalogue"))) and not ("Writer" in f.cls and "URI" in f.params[0][2]):
            for i, x in enumerate(f.n):
                if x[0] == "new" and re.search(r"^fdb5::(TocCatalogue|CatalogueImpl)::", x[2]["q"]):
                    t = " ".join(sym.r(f, a) for a in f.args(i))
                    if x[2]["q"].startswith("fdb5::CatalogueImpl"):
                        ok = bool(re.search(r"param:\w+\.controlIdentifiers_|param:controlIdentifiers|param:\w*[iI]dentifiers", t))
                    else:
                        ok = not re.search(r"ControlIdentifiers\(\)", t)
                    ctx.ob("config", f"{f.cls}({','.join(re.sub(r'const |fdb5::|eckit::|&| ', '', q[2]) for q in f.params)}): takes the access configured for its root", ok, f.loc(i), "" if ok else "wiping and purging open databases this way: a root with 'wipe: false' is wiped all the same")
