"""Static decision of "only the owner modifies a database": the owner check comes before the first change on every path into an
on-disk database, and it answers from the recorded owner and the user the process runs as."""
import re

from vt.lib import AssignPred, CallPred, below, class_entries, guarded, last, must_pass, ordered, par, pathfacts
from vt.prog import Sym

TECHNIQUE = "interprocedural ordering (owner check before the first change), who-writes-what of the recorded owner, path facts of the check itself"
ASSUMPTIONS = ["getuid() and the uid in the TOC_INIT record are what they are documented to be"]
FLOORS = {"check": 3, "append": 3, "operation": 5}

H = "fdb5::TocHandler"
CHECK = [CallPred(r"^fdb5::\w+::checkUID$")]


def run(ctx):
    p = ctx.p
    F = p.find
    sym = Sym(p)

    # 1. the check
    for f in F("fdb5::TocCommon::checkUID"):
        names = {k: {x[2]["n"] for g in below(p, f, lambda h: h.cls == f.cls or not h.cls) for x in g.n if x[0] == "var" and x[3] and f'"{k}"' in sym.r(g, x[3][0])} for k in ("fdbOnlyCreatorCanWrite", "fdbSuperUsers")}
        only, sup = ("|".join(sorted({re.escape(n) for n in names[k]} | {k})) for k in names)
        track = {"only": rf"^(\w+:)?({only})(@|$)", "same": r"^(this\.)?(\w+\(\)|\w+)==.*userUID_|userUID_==|dbUID\(\)==|dbUID_==", "super": rf"std::find.*({sup}).*|({sup}).*\.(count|find|contains)\("}

        def chk(o, d):
            if d.get("only") is False or d.get("same") is True or "super" in d:
                return None
            return "returns though the process does not run as the owner"

        pathfacts(ctx, "check", f, track, "an error unless owner, super user or switched off", check=chk, boolean=False, allow=lambda h: h.cls == f.cls or not h.cls)
        # the sense of the super user test: it is 'not found' that fails
        thr = [i for i, x in enumerate(f.n) if x[0] == "throw"]
        pathfacts(ctx, "check", f, {"sup": rf"end\(.*({sup}).*\)==std::find"}, "a super user is accepted, any other user is not", boolean=False, allow=lambda h: h.cls == f.cls or not h.cls,
                  check=lambda o, d: "a user who is no super user is accepted" if d.get("sup") is True else None)
        ctx.ob("check", f"{f.q}: refuses by an error", bool(thr) or any(x[0] == "throw" for g in below(p, f, lambda h: h.cls == f.cls or not h.cls) for x in g.n), f.loc())
    for f in sorted(p.fns.values(), key=lambda g: g.id):
        for i, x in enumerate(f.n):
            if x[0] == "assign" and f.file.startswith("fdb5/toc") and re.search(r"(^|\.)(userUID_)$", sym.r(f, x[3][0])):
                ok = "getuid()" in sym.r(f, x[3][1])
                ctx.ob("check", f"{f.q}: the user is whom the process runs as", ok, f.loc(i))
            if x[0] == "assign" and f.file.startswith("fdb5/toc") and re.search(r"(^|\.)(dbUID_)$", sym.r(f, x[3][0])) and f.kind != "ctor":
                v = sym.r(f, x[3][1])
                ok = bool(re.search(r"header_\.uid_$|\.st_uid$", v))
                ctx.ob("check", f"{f.q}: the owner is the one on record", ok, f.loc(i), v[:80])
    for f in F("fdb5::TocHandler::dbUID"):
        ok = any(x[0] == "return" for x in f.n)
        pathfacts(ctx, "check", f, {"init": r"TOC_INIT==|==.*TOC_INIT"}, "the owner is read from the init record", boolean=False, allow=lambda h: h is f,
                  at=[(AssignPred(r"dbUID_$"), lambda d, fr, i: None if d.get("init") else "the owner is taken from a record that is not the init record")])

    # 2. appending
    near = lambda g: g.cls == H or not g.cls or g.cls == "fdb5::TocCommon"
    WRITE = [CallPred(r"^(write|pwrite|writev|pwritev)$")]
    APP = [CallPred(H + "::openForAppend$")]
    for f in F(H + "::openForAppend"):
        ordered(ctx, "append", f, CHECK, [CallPred(r"^open(64|at)?$")], "the owner is checked before the table of contents is opened for writing", allow=near)
    ids = {f.id for f in p.fns.values() if f.cls == H and any(WRITE[0].quick(inf) for _, inf in f.calls())}
    for f in class_entries(p, H, ids):
        if f.name == "writeInitRecord":
            guarded(ctx, "append", f, WRITE + [CallPred(r"PathName::rename$"), CallPred(r"DataHandle::copyTo$")], [(r"^0==(local:\w+|.*readNext\w*\(.*\))$", True), (r"^(local:\w+|.*readNext\w*\(.*\))$", False)],
                    "an existing database is not changed, only a new one is started", allow=lambda g: near(g) and not g.name.startswith(("read", "openForRead")), first=APP)
            guarded(ctx, "append", f, [CallPred(r"PathName::mkdir$")], [(r"\.exists\(\)$", False)], "an existing directory is left alone", allow=near, required=False)
            continue
        if f.name in ("append", "appendRaw", "appendRound") and f.d.get("acc") != "public":
            continue
        ordered(ctx, "append", f, APP + CHECK, WRITE, "records are appended only after the owner was checked", allow=lambda g: near(g) and g.name != "writeInitRecord", need_then=False)

    # 3. locks
    for f in sorted(p.fns.values(), key=lambda g: g.id):
        if f.cls == H and any(re.search(r"PathName::(touch|unlink)$", inf["q"]) for _, inf in f.calls()):
            ordered(ctx, "operation", f, CHECK, [CallPred(r"PathName::(touch|unlink|rename)$")], "the owner is checked before a lock changes", allow=near)

    # 4. operations on whole databases
    for f in F("fdb5::TocPurgeVisitor::purge"):
        own = lambda g: g.cls == f.cls or not g.cls
        ordered(ctx, "operation", f, CHECK, [CallPred(r"TocHandler::writeClearRecord$"), CallPred(r"^fdb5::(Toc)?(Store|Catalogue)::remove$")], "the owner is checked before anything is purged", allow=own)
    for f in [g for g in p.fns.values() if g.kind == "ctor" and g.cls == "fdb5::TocCatalogueWriter" and len(g.params) == 2]:
        must_pass(ctx, "operation", f, CHECK, what=f"a database opened for writing ({re.sub('const |&', '', f.params[0][2]).strip()}) belongs to the user", allow=lambda g: g.cls == f.cls or not g.cls)
    CTRL = CallPred(r"^fdb5::\w*Catalogue\w*::control$")
    for f in F("fdb5::api::local::WipeCatalogueVisitor::visitDatabase"):
        own = lambda g: g.cls == f.cls or not g.cls
        pathfacts(ctx, "operation", f, {"doit": r"^this\.doit_$"}, "a wipe locks the database (which checks the owner) before anything else", events={"c": [CTRL]}, allow=own, need_hits=True,
                  check=lambda o, d: "a database is to be wiped without having been locked" if o is not False and d.get("doit") is not False and not d.get("c") else None)
    for f in F("fdb5::api::local::MoveVisitor::visitDatabase"):
        own = lambda g: g.cls == f.cls or not g.cls
        ordered(ctx, "operation", f, [CTRL], [CallPred(r"Catalogue\w*::moveVisitor$"), CallPred(r"^fdb5::(EntryVisitor|MoveVisitor)::visitDatabase$")], "a move locks the database (which checks the owner) before anything else", allow=own)
    for f in F("fdb5::TocCatalogue::control"):
        must_pass(ctx, "operation", f, [CallPred(H + "::control$")], what="locks are files of the database", allow=lambda g: g is f)
    for f in F("fdb5::TocCatalogue::checkUID"):
        must_pass(ctx, "operation", f, [CallPred(r"^fdb5::(TocHandler|TocCommon)::checkUID$")], what="the catalogue checks the owner", allow=lambda g: g is f)
    for f in F("fdb5::Archiver::selectDatabase"):
        own = lambda g: g.cls == f.cls or not g.cls
        ordered(ctx, "operation", f, [CallPred(r"CatalogueWriterFactory::build$")], [CallPred(r"^fdb5::\w*Catalogue\w*::buildStore$")], "the catalogue is opened for writing (which checks the owner) before the store", allow=own)
