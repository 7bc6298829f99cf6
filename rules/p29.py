"""Static decision of "purge removes only superseded data and masks it first": path facts of the usage counts, guards and order of
masking and removing, provenance of everything removed."""
import re

from vt.lib import AssignPred, CallPred, below, expand, flows, guarded, loops_around, loop_of, never_after, ordered, par, pathfacts, stores
from vt.prog import Sym

TECHNIQUE = "path-sensitive usage counting (every entry counts for its files exactly when it is the first of its kind), guards and order of masking and removal, provenance of what is removed"
ASSUMPTIONS = ["indexes are visited newest first (decided for P05/P29 by the direction of the traversal)", "std container semantics"]
FLOORS = {"count": 5, "remove": 6, "mask": 3, "api": 4}

NEXT = [CallPred(r"iterator\w*::operator\+\+$"), AssignPred(r"^local:", None, ("++", "p++", "+="))]
V = "fdb5::TocPurgeVisitor"
S = "fdb5::TocStatsReportVisitor"


def run(ctx):
    p = ctx.p
    F = p.find
    sym = Sym(p)
    mine = {V, S} | set(p.subclasses(S))
    own = lambda g: g.cls in mine or not g.cls

    # 1. usage counts
    INC = ("++", "p++", "+=")
    for f in [g for g in F(S + "::visitDatum") if g.blocks and "basic_string" in g.params[1][2]]:
        new = r"active_\.(insert|emplace)\(.*\)\.second$|^0==.*active_\.count|end\(this\.active_\)=="

        def chk(o, d):
            if d.get("skip") is False:
                return None
            if "new" not in d:
                return "an entry is neither counted as in use nor as a duplicate"
            if d["new"] and not (d.get("iu") and d.get("du")):
                return "an entry that is in use does not count for its index file and its data file"
            if d["new"] is False and (d.get("iu") or d.get("du")):
                return "a duplicate counts as a use of its files"
            if d["new"] is False and not d.get("dup"):
                return "a duplicate is not counted as such"
            if d["new"] and d.get("dup"):
                return "an entry that is in use is counted as a duplicate"
            if not d.get("f"):
                return "an entry is not counted at all"

        pathfacts(ctx, "count", f, {"new": r"active_\.(insert|emplace)\(.*\)\.second$", "skip": r"\.sameAs\("}, "every entry counts for its files unless superseded", boolean=False, allow=own, check=chk,
                  events={"dup": [CallPred(r"IndexStats::addDuplicatesCount$", args={0: "^1$"})], "f": [CallPred(r"IndexStats::addFieldsCount$", args={0: "^1$"})]},
                  aevents={"iu": [AssignPred(r"^this\.indexUsage_", None, INC)], "du": [AssignPred(r"^this\.dataUsage_", None, INC)]})
        flows(ctx, "count", f, CallPred(r"set::(insert|emplace)$", obj="active_"), {0: r"key_?(\(\))?\.valuesToString\(\).*" + par(f, 1)}, "entries are told apart by index key and field", allow=own)
        for g in below(p, f, own):
            for i, inf in g.calls():
                if re.search(r"set::(insert|emplace)$", inf["q"]) and g.obj(i) is not None and re.search("active_", sym.r(g, g.obj(i))):
                    a = expand(sym, g, sym.r(g, g.args(i)[0]))
                    ctx.ob("count", f"{f.q}: index key and field are kept apart", not re.search(r"valuesToString\(\)\)*\+\(*param:|^\(*param:\w+\)*\+\(*this\.\S*valuesToString", a), g.loc(i), a)
        bad = []
        for g in below(p, f, own):
            for i, inf in g.calls():
                if inf["q"].endswith("::operator[]") and g.obj(i) is not None:
                    o, a = sym.r(g, g.obj(i)), sym.r(g, g.args(i)[0])
                    if o == "this.dataUsage_" and not (par(f, 0) in a or "param:" in a and g is not f) or o == "this.indexUsage_" and "currentIndex_" not in a and g is f:
                        bad.append((g.loc(i), o + " " + a[:60]))
        ctx.ob("count", f"{f.q}: uses are counted for the field's own file and its index's own file", not bad, bad[0][0] if bad else f.loc(), bad[0][1] if bad else "")
    # counts never go down
    for f in sorted(p.fns.values(), key=lambda g: g.id):
        if f.cls not in mine:
            continue
        for i, x in enumerate(f.n):
            if x[0] == "assign" and re.search(r"^this\.(dataUsage_|indexUsage_)(\[|\.|$)|elem\(this\.(dataUsage_|indexUsage_)\)\.second", sym.r(f, x[3][0])):
                ok = x[2] in INC and not (x[2] == "+=" and sym.r(f, x[3][1]).startswith("-"))
                ctx.ob("count", f"{f.q}: a use is never taken back", ok, f.loc(i), "" if ok else x[2])
        for i, inf in f.calls():
            if re.search(r"::(erase|clear|swap|extract)$", inf["q"]) and f.obj(i) is not None and re.search(r"^this\.(dataUsage_|indexUsage_|active_|indexStats_)$", sym.r(f, f.obj(i))):
                ctx.ob("count", f"{f.q}: a use is never taken back", False, f.loc(i))

    # 2. removal
    ZERO = lambda m: [(rf"^0==elem\(this\.{m}\)\.second$", True), (rf"^elem\(this\.{m}\)\.second$", False)]
    SAME = [(r"\.sameAs\(", True)]
    RMS, RMC = CallPred(r"^fdb5::\w*Store::remove$"), CallPred(r"^fdb5::\w*Catalogue::remove$")
    for f in F(V + "::purge"):
        P2 = par(f, 2)
        flows(ctx, "remove", f, RMS, {3: f"^{P2}$", 0: r"elem\(this\.(dataUsage_\)\.first|deleteAuxFiles_\))"}, "the store removes data files and what accompanies them, if told to", allow=own)
        flows(ctx, "remove", f, RMC, {3: f"^{P2}$", 0: r"elem\(this\.indexUsage_\)\.first"}, "the catalogue removes index files, if told to", allow=own)
        for pr, m in ((RMS, "dataUsage_"), (RMC, "indexUsage_")):
            def at(d, fr, i, m=m):
                t = " ".join(expand(sym, fr.fn, sym.r(fr.fn, a, fr.env), fr.env) for a in fr.fn.args(i)[:1])
                if "deleteAuxFiles_" in t:
                    if d.get("keep") is not False and d.get("keep2") is not True:
                        return "an accompanying file is removed though data that stays may need it"
                elif not d.get("z"):
                    return "a file is removed though something in use refers to it"
                if not d.get("same"):
                    return "a file is removed that is not of this database"

            pathfacts(ctx, "remove", f, {"z": rf"^0==elem\(this\.{m}\)\.second$", "same": r"\.sameAs\(", "keep": r"keepAuxFiles_\.(count|contains)\(", "keep2": r"end\(this\.keepAuxFiles_\)==this\.keepAuxFiles_\.find"},
                      "nothing in use, nothing of another database is removed", at=[(pr, at)], kills=[(NEXT, ["z", "same", "keep", "keep2"])], allow=own, need_hits=True, boolean=False)
        # masking
        CLR = CallPred(r"TocHandler::writeClearRecord$")
        flows(ctx, "mask", f, CLR, {0: r"elem\(this\.indexStats_\)\.first"}, "masks the index that was counted", allow=own)
        never_after(ctx, "mask", f, [RMS, RMC], [CLR], "masking comes before removal", allow=own)
        ordered(ctx, "mask", f, [CLR], [RMS, RMC], "masking comes before removal (2)", allow=own, sanction=[(r"^atend\(this\.indexStats_\)$", True), (f"^{P2}$", False)])

        def mk(d, fr, i):
            if not d.get("all"):
                return "an index is masked though some of its entries are in use"
            if not d.get("doit"):
                return "an index is masked though nothing is to be done"

        T = {"all": r"duplicatesCount\(.*==.*fieldsCount\(|fieldsCount\(.*==.*duplicatesCount\(", "doit": f"^{P2}$"}
        LOOPS = loops_around(p, below(p, f, own), [CLR])
        pathfacts(ctx, "mask", f, T, "exactly the indexes all of whose entries are superseded are masked", events={"c": [CLR]}, at=[(CLR, mk)] + [(x, lambda d, fr, i: "a superseded index is not masked" if (fr.fn.id, loop_of(fr.fn, i)) in LOOPS and
                  not d.get("c") and d.get("all") is not False and d.get("doit") is not False else None) for x in NEXT], kills=[(NEXT, ["all", "c"])], allow=own, need_hits=True, boolean=False)
        ordered(ctx, "mask", f, [CallPred(r"::checkUID$")], [CLR, RMS, RMC], "the owner is checked first", allow=own)
    for f in F(V + "::gatherAuxiliaryURIs"):
        DELA, KEEPA = CallPred(r"set::(insert|emplace)$", obj="deleteAuxFiles_"), CallPred(r"set::(insert|emplace)$", obj="keepAuxFiles_")
        T = {"z": r"^0==elem\(this\.dataUsage_\)\.second$", "b": r"uriBelongs\("}
        LOOPS = loops_around(p, below(p, f, own), [DELA, KEEPA])
        OUTER = [x for x in NEXT]
        pathfacts(ctx, "remove", f, T, "what accompanies data is removed with it and kept with it", events={"x": [DELA, KEEPA]}, boolean=False, allow=own, need_hits=True,
                  kills=[([CallPred(r"iterator\w*::operator\+\+$", obj=r"^iter\(this\.dataUsage_\)")], ["z", "b", "x"])],
                  at=[(DELA, lambda d, fr, i: None if d.get("z") and d.get("b") else "a file that accompanies data in use is marked for removal"),
                      (KEEPA, lambda d, fr, i: None if d.get("z") is False or d.get("b") is False else "kept without reason")])
    for f in F(V + "::visitDatabase"):
        guarded(ctx, "remove", f, [CallPred(r"set::(insert|emplace)$", obj="allDataFiles_")], [(r"uriBelongs\(", True)], "masked data of another store is refused", allow=own)
        flows(ctx, "remove", f, CallPred(r"::allMasked$"), {}, "what was masked before is looked at", obj=par(f, 0), allow=own)

    # 3. removal is real only if told to
    for q in ("fdb5::TocCatalogue::remove", "fdb5::TocStore::remove"):
        for f in F(q):
            if len(f.params) == 4:
                guarded(ctx, "api", f, [CallPred(r"::(unlink|rmdir)$")], [(f"^{par(f, 3)}$", True)], "removes only if told to", allow=lambda g: g.cls == f.cls or not g.cls)

    # 4. the operation
    A = "fdb5::api::local::PurgeVisitor"
    near = lambda g: g.cls == A or not g.cls
    PURGE, GATHER = CallPred(r"^fdb5::\w*PurgeVisitor::purge$"), CallPred(r"^fdb5::\w*PurgeVisitor::gatherAuxiliaryURIs$")
    for f in F(A + "::catalogueComplete"):
        flows(ctx, "api", f, PURGE, {1: r"^this\.porcelain_$", 2: r"^this\.doit_$"}, "purges as asked", allow=near)
        ordered(ctx, "api", f, [GATHER], [PURGE], "accompanying files are classified first", allow=near)
    for f in F(A + "::visitDatabase"):
        pathfacts(ctx, "api", f, {"m": r"\.match\("}, "a request for part of a database is refused", allow=near, check=lambda o, d: None if o is False or d.get("m") else "a database is purged though the request covers only part of it")
    for f in [g for g in F(A + "::visitDatum") if "basic_string" in g.params[1][2]]:
        flows(ctx, "api", f, CallPred(r"::visitDatum$", obj="internalVisitor_"), {0: par(f, 0), 1: par(f, 1)}, "every entry is counted", allow=near)
    for f in F(A + "::visitIndex"):
        flows(ctx, "api", f, CallPred(r"::visitIndex$", obj="internalVisitor_"), {0: par(f, 0)}, "every index is counted", allow=near)
        pathfacts(ctx, "api", f, {}, "no index is left out", allow=near, check=lambda o, d: None if o is not False else "an index may be left out")
    for f in [g for g in p.fns.values() if g.kind == "ctor" and g.cls == A]:
        stores(ctx, "api", f, {"doit_": f"^{par(f, 2)}$", "porcelain_": f"^{par(f, 3)}$"}, "does what was asked for")
    for q, n in (("fdb5::LocalFDB::purge", 3),):
        for f in F(q):
            ok = False
            for g in [f] + [h for h in p.fns.values() if h.kind == "lambda" and f in p.family(h)]:
                for i, inf in g.calls():
                    if "queryInternal" in inf["q"]:
                        a = [sym.r(g, x) for x in g.args(i)]
                        ok = a == [par(f, k) for k in range(3)]
            ctx.ob("api", f"{q}: request, doit and porcelain are passed on in their places", ok, f.loc())
