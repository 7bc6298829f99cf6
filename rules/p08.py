"""Static decision of "a wipe deletes only its own": who may put what into the sets of things to delete, guarded by what; path
facts of classification loops (nothing falls between the sets); provenance of every path, object or container handed to a
removing call; the guards around the unsafe modes, locally and in the server."""
import re

from vt.lib import AssignPred, CallPred, below, expand, flows, guarded, last, loop_of, loops_around, must_pass, ordered, par, pathfacts
from vt.prog import Sym

TECHNIQUE = "who-writes-what of the deletion sets, path-sensitive facts of the classification loops, guards of unsafe modes, provenance of everything removed"
ASSUMPTIONS = ["PathName::rmdir and unlink remove just the path given", "std::set and std::map semantics"]
FLOORS = {"sets": 5, "belongs": 1, "classify": 12, "unknown": 8, "delete": 10, "remote": 5}

NEXT = [CallPred(r"iterator\w*::operator\+\+$"), AssignPred(r"^local:", None, ("++", "p++", "+="))]
W = "fdb5::WipeState"
SAFE = r"isMarkedSafe\(|end\(this\.safeURIs_\)==this\.safeURIs_\.find\(|safeURIs_\.(count|contains)\("


def run(ctx):
    p = ctx.p
    F = p.find
    sym = Sym(p)
    wcls = {W} | set(p.subclasses(W))

    # 1. the sets: whatever is safe is not deleted
    INS = re.compile(r"::(insert|emplace|operator\[\]|try_emplace|insert_or_assign|emplace_hint|operator=|swap|merge)$")
    for g in sorted(p.fns.values(), key=lambda g: g.id):
        if not g.file.startswith("fdb5/"):
            continue
        hits = []
        for i, inf in g.calls():
            o = g.obj(i)
            if o is None or not INS.search(inf["q"]):
                continue
            s = sym.r(g, o)
            if re.search(r"deleteURIs_(\[|\.at\(|\.find\(|\.operator|$)", s) and re.search(r"::(insert|emplace|emplace_hint|insert_or_assign|operator=|swap|merge|try_emplace)$", inf["q"]):
                hits.append(i)
        if not hits:
            continue
        if g.kind == "ctor" or g.name == "operator=":
            continue  # a new state, or one read back
        ctx.ob("sets", f"{g.q}: only the wipe state itself adds to what is deleted", g.cls in wcls, g.loc(hits[0]))
        PUT = [CallPred(r"^std::(set|map)::(insert|emplace|emplace_hint|insert_or_assign|try_emplace|operator=|swap|merge)$", obj=r"deleteURIs_")]
        guarded(ctx, "sets", g, PUT, [(r"isMarkedSafe\(|safeURIs_\.(count|contains)\(", False), (r"end\(this\.safeURIs_\)==this\.safeURIs_\.find\(", True)], "nothing that is safe is marked for deletion", allow=lambda h: h.cls in wcls)
    for f in F(W + "::markAsSafe"):
        INSAFE = [CallPred(r"^std::set::(insert|emplace|merge|operator=)$", obj=r"safeURIs_$")]
        ERASE = [CallPred(r"^std::(set|map)::(erase|clear|extract)$", obj=r"deleteURIs_")]
        must_pass(ctx, "sets", f, INSAFE, what="is remembered as safe", forall=re.compile(r"param:uris"), allow=lambda h: h.cls in wcls)
        g = [h for h in below(p, f, lambda h: h.cls in wcls or not h.cls) if any(ERASE[0].quick(inf) and h.obj(i) is not None and "deleteURIs_" in sym.r(h, h.obj(i)) for i, inf in h.calls())]
        ok = bool(g)
        ctx.ob("sets", "what becomes safe is no longer marked for deletion", ok, f.loc(), "" if ok else "a data item needed by a retained index, and included before, stays marked for deletion")
        if ok:
            pathfacts(ctx, "sets", f, {}, "each item that becomes safe is unmarked", events={"e": ERASE}, need_hits=True, nonempty=True,
                      check=lambda o, d: None if d.get("e") else "a path leaves the deletion marks of what becomes safe", boolean=False, allow=lambda h: h.cls in wcls)
    for f in F(W + "::isMarkedSafe"):
        ctx.ob("sets", f"{f.q}: looks into the safe set", any(x[0] == "return" and "safeURIs_" in str(sym.formula(f, x[3][0])) for x in f.n), f.loc())
    for name, to, arg in (("includeData", "markForDeletion", 1), ("excludeData", "markAsSafe", 0)):
        for f in F("fdb5::StoreWipeState::" + name):
            ordered(ctx, "sets", f, [CallPred(r"StoreWipeState::failIfSigned$|Signature::isSigned$")], [CallPred(W + "::" + to + "$")], "a signed state is not changed", allow=lambda h: h.cls in wcls and h.name != to)
            flows(ctx, "sets", f, CallPred(W + "::" + to + "$"), {arg: par(f, 0)}, "exactly the item given", allow=lambda h: h is f)
        for f in F("fdb5::CatalogueWipeState::" + name):
            flows(ctx, "sets", f, CallPred(r"StoreWipeState::(includeData|excludeData)$"), {0: f"^{par(f, 0)}$"}, "passed on to the state of the store", allow=lambda h: h is f)
            others = [i for i, inf in f.calls() if re.search(r"StoreWipeState::(includeData|excludeData)$", inf["q"]) and last(inf["q"]) != name]
            ctx.ob("sets", f"{f.q}: keeps its meaning", not others, f.loc())

    # which store is asked whether an item is its own: that of the database, or whichever the item itself names
    own_item, where = False, ""
    for f in F("fdb5::CatalogueWipeState::includeData"):
        for g in below(p, f, lambda h: h.cls in wcls or not h.cls):
            for i, x in enumerate(g.n):
                if x[0] in ("new", "call") and re.search(r"map::(try_emplace|emplace|insert|operator\[\])$|StoreWipeState::StoreWipeState$|make_unique$", x[2]["q"]):
                    t = " ".join(expand(sym, g, sym.r(g, a)) for a in g.args(i))
                    if re.search(r"uri\(" + par(f, 0) + r"\)|StoreFactory.*param:", t) and "catalogue" not in t:
                        own_item, where = True, where or g.loc(i)
    ctx.ob("belongs", "the store asked whether a data item is its own is the store of the database, not the one the item names", not own_item, where)

    # 2. classification of indexes and their data
    V = "fdb5::api::local::WipeCatalogueVisitor"
    MARK = CallPred(r"::markIndexForWipe$")
    for f in F(V + "::visitIndex"):
        own = lambda g: g.cls == V or not g.cls
        INC, EXC = CallPred(r"CatalogueWipeState::includeData$"), CallPred(r"CatalogueWipeState::excludeData$")
        flows(ctx, "classify", f, MARK, {1: r"\.match\(|^local:", 0: par(f, 0)}, "the catalogue decides about the index", allow=own)
        flows(ctx, "classify", f, INC, {0: r"elem\(.*dataURIs"}, "data of this index", allow=own)
        flows(ctx, "classify", f, EXC, {0: r"elem\(.*dataURIs"}, "data of this index", allow=own)
        # the variable that holds the catalogue's decision
        var = set()
        for g in below(p, f, own):
            for i, x in enumerate(g.n):
                if x[0] == "assign" and x[2] == "=" and "markIndexForWipe(" in sym.r(g, x[3][1]):
                    var.add(re.escape(sym.r(g, x[3][0])))
        DEC = "markIndexForWipe\\(" + "".join("|^" + v + "$" for v in var)

        def inc(d, fr, i):
            if not (d.get("asked") and d.get("inc")):
                return "data of an index is included though the catalogue did not agree to wiping the index"

        pathfacts(ctx, "classify", f, {"inc": DEC, "data": r"atend\(.*dataURIs"}, "data is deleted with its index and protected otherwise", events={"asked": [MARK], "i": [INC], "e": [EXC]},
                  kills=[([MARK], ["inc"]), (NEXT, ["i", "e"])], at=[(INC, inc)] + [(x, lambda d, fr, i: None if "data" not in d or d.get("i") or d.get("e") and True else "a data item is neither included nor protected") for x in NEXT],
                  allow=own, need_hits=True)
        pathfacts(ctx, "classify", f, {"inc": DEC, "data": r"atend\(.*dataURIs"}, "data of retained indexes is protected", events={"asked": [MARK], "e": [EXC]},
                  kills=[([MARK], ["inc"]), (NEXT, ["e"])], at=[(x, lambda d, fr, i: "a data item of a retained index is not protected" if d.get("inc") is False and not d.get("e") else None) for x in NEXT], allow=own, need_hits=True)
    # the request an index is matched against is what the request says below the key of this database
    res = set()
    for f in F(V + "::visitIndex"):
        for g in below(p, f, lambda h: h.cls == V or not h.cls):
            for i, inf in g.calls():
                if re.search(r"(Key|BaseKey|TypedKey)::match$", inf["q"]) and g.args(i):
                    a = expand(sym, g, sym.r(g, g.args(i)[0]))
                    if re.match(r"^this\.\w+$", a):
                        res.add(re.escape(a))
    for f in F(V + "::visitDatabase"):
        for a in sorted(res):
            own = lambda g: g.cls == V or not g.cls
            SET = [CallPred(r"MarsRequest::operator=$", obj="^" + a + "$", args={0: "^(?!.*" + a + ")"})]
            if a == r"this\.request_":
                continue
            pathfacts(ctx, "classify", f, {"l": r"enabled\("}, "each database is given its own residual request", events={"a": SET}, allow=own, check=lambda o, d: "the residual request of another database is kept" if o is True and not d.get("a") else None)
            must_pass(ctx, "classify", f, [CallPred(r"MarsRequest::unsetValues$", args={0: r"elem\("})], what="the keywords of the database are taken out of the residual request", forall=re.compile(r"key\(\)|param:key"), allow=own, sanction=[(r"enabled\(", False)])
            for g in below(p, f, own):
                for i, inf in g.calls():
                    if g.obj(i) is not None and re.search("^" + a + "$", sym.r(g, g.obj(i))) and last(inf["q"]) in ("setValue", "setValuesTyped", "values", "merge", "setValues") and g.args(i):
                        ctx.ob("classify", f"{f.q}: the residual request holds nothing else", last(inf["q"]) == "values" and len(g.args(i)) == 1, g.loc(i))

    for f in sorted(p.fns.values(), key=lambda g: g.id):
        if f.name != "markIndexForWipe" or f.kind != "method" or "remote" in f.cls or not f.blocks:
            continue
        if not any("CatalogueWipeState" in inf["q"] or inf["q"].startswith(W) for _, inf in f.calls()):
            continue
        P1 = par(f, 1)
        own = lambda g, c=f.cls: g.cls == c or not g.cls
        DEL = CallPred(r"WipeState::(markForDeletion|markForMasking)$")
        SAFEC = CallPred(r"WipeState::markAsSafe$")
        SAME = r"\.sameAs\(|==.*(dirName\(|basePath|directory_)|pool_==|_==.*pool_|cont"

        def at(d, fr, i):
            if d.get("inc") is False or d.get("same") is False or d.get("inc") is None and not d.get("same"):
                return "an index is marked for deletion though it is not to be wiped or lies elsewhere"
            if not d.get("same"):
                return "an index is marked for deletion without having been found to lie in this database"

        pathfacts(ctx, "classify", f, {"inc": f"^{P1}$", "same": SAME}, "an index is deleted only if asked for and its own", at=[(DEL, at)], events={"s": [SAFEC]}, allow=own, need_hits=True,
                  kills=[([AssignPred("^" + P1 + "$")], ["inc"])], check=lambda o, d: "an index is neither deleted nor protected" if o is False and not d.get("s") else None)

    # 3. classification of the rest
    for f in sorted(p.fns.values(), key=lambda g: g.id):
        if f.name != "finaliseWipeState" or f.kind != "method" or len(f.params) not in (1, 3) or not f.blocks:
            continue
        own = lambda g, c=f.cls: g.cls == c or not g.cls
        P0 = par(f, 0)
        UNK = CallPred(r"WipeState::insertUnrecognised$")
        if "CatalogueWipeState" in f.params[0][2] and any(last(inf["q"]) == "markForDeletion" for _, inf in f.calls()):
            near = lambda g, c=f.cls: (g.cls == c or not g.cls)
            guarded(ctx, "classify", f, [CallPred(r"WipeState::(markForDeletion|insertUnrecognised|includeData)$")], [(r"empty\(.*safeURIs", True)], "the catalogue's own files go only if nothing in it is retained", allow=near)

            LOOPS = loops_around(p, below(p, f, own), [UNK])

            def nx(d, fr, i, loops=LOOPS):
                if (fr.fn.id, loop_of(fr.fn, i)) in loops and d.get("m") is not True and not d.get("u"):
                    return "something found in the database is neither marked nor reported as unknown"

            pathfacts(ctx, "unknown", f, {"m": r"isMarkedForDeletion\(|deleteURIs_"}, "whatever is not its own is reported as unknown", events={"u": [UNK]},
                      kills=[(NEXT, ["m", "u"])], at=[(x, nx) for x in NEXT] + [(UNK, lambda d, fr, i: None)], allow=own, need_hits=True)
        elif "StoreWipeState" in f.params[0][2] and any(last(inf["q"]) == "insertUnrecognised" for _, inf in f.calls()) and "remote" not in f.cls:
            BEL = r"uriBelongs\("

            LOOPS = loops_around(p, below(p, f, own), [UNK])

            def nx2(d, fr, i, loops=LOOPS):
                if (fr.fn.id, loop_of(fr.fn, i)) in loops and not d.get("u") and not any(d.get(k) is False for k in ("a", "b", "c")) and not any(d.get(k) for k in ("a2", "b2", "c2")):
                    return "something found in the store is skipped without having been found among the known items"

            track = {}
            for k, n in (("a", "includedDataURIs"), ("b", "dataAuxiliaryURIs"), ("c", "safeURIs_?")):
                track[k] = rf"end\([^=]*{n}[^=]*\)=="
                track[k + "2"] = rf"{n}(\(\))?\.(count|contains)\("
            pathfacts(ctx, "unknown", f, track, "whatever is not its own is reported as unknown", events={"u": [UNK]}, kills=[(NEXT, list(track) + ["u"])],
                      at=[(UNK, lambda d, fr, i: None)] + [(x, nx2) for x in NEXT], allow=own, need_hits=True)
            if f.cls == "fdb5::TocStore":
                guarded(ctx, "classify", f, [CallPred(r"StoreWipeState::(insertAuxiliaryURI|markAsMissing)$")], [(BEL, True), (r"atend\(local|empty\(local", False)], "data that is not of this store is refused", allow=own)

                def nx3(d, fr, i):
                    t = sym.r(fr.fn, fr.fn.n[i][3][0], fr.env) if fr.fn.n[i][3] else ""
                    if "includedDataURIs" in t and "elem(" not in t and d.get("bel") is not True:
                        return "a data item is accepted without belonging to this store"

                pathfacts(ctx, "classify", f, {"bel": BEL}, "every data item belongs to this store, or the wipe is refused", kills=[([CallPred(r"iterator\w*::operator\+\+$", obj=r"^(?!.*elem\().*includedDataURIs")], ["bel"])], at=[(x, nx3) for x in NEXT], allow=own, need_hits=True)
    for cls, tests in (("fdb5::TocStore", {"scheme": r"scheme\(\)", "dir": r"dirName\(\)"}), ("fdb5::TocCatalogue", {"dir": r"dirName\(\)"}), ("fdb5::DaosStore", {"scheme": r"scheme\(\)", "pool": r"pool", "cont": "cont"}),
                       ("fdb5::DaosCatalogue", {"scheme": r"scheme\(\)", "pool": r"pool", "cont": "cont"})):
        for f in F(cls + "::uriBelongs"):
            if cls.startswith("fdb5::Daos"):
                txt = " ".join(sym.r(f, c) for x in f.n for c in x[3] if x[0] in ("assign", "var", "return", "bin", "call") and c is not None and c >= 0)
                ok = all(re.search(t, txt) for t in tests.values())
                ctx.ob("classify", f"{cls}::uriBelongs: takes place and kind into account", ok, f.loc(), txt[:200])
                continue
            pathfacts(ctx, "classify", f, tests, "claims only what lies in its own directory", check=lambda o, d, t=tests: "claims an item without having compared where it lies" if o is True and not all(d.get(k) for k in t) else None)

    # 4. the coordinator
    C = "fdb5::WipeCoordinator"
    near = lambda g: g.cls == C or not g.cls
    DO = [CallPred(r"^fdb5::(Catalogue|Store)\w*::(doWipeURIs|doWipeUnknowns|doUnsafeFullWipe|doWipeEmptyDatabase|maskIndexEntries)$"), CallPred(r"^fdb5::(remote::)?\w*(Catalogue|Store)\w*::(doWipeURIs|doWipeUnknowns|doUnsafeFullWipe|maskIndexEntries)$")]
    for f in F(C + "::wipe"):
        UNS = f"^{par(f, 2)}$"

        def at(d, fr, i):
            if not d.get("uns") and not (d.get("cat") is True and d.get("st") is False):
                return "the wipe goes on though there may be unknown items and no unsafe wipe was asked for"

        pathfacts(ctx, "unknown", f, {"uns": UNS, "cat": r"^empty\(.*catalogue", "st": r"^std::any_of\(.*store"}, "unknown items stop the wipe before anything is removed", at=[(x, at) for x in DO], allow=near, need_hits=True)
        ordered(ctx, "unknown", f, [CallPred(C + "::gatherUnknowns$"), CallPred(r"unrecognisedURIs$")], DO, "unknown items are collected first", allow=near)
        ordered(ctx, "unknown", f, [CallPred(r"Store::finaliseWipeState$")], [CallPred(r"unrecognisedURIs$", obj=r"elem")], "every store reports first", allow=near, sanction=[(r"atend\(.*storeWipeStates", True)])
        guarded(ctx, "unknown", f, [CallPred(r"::doWipeUnknowns$")], [(UNS, True)], "unknown items are deleted only on demand", allow=near)
        guarded(ctx, "unknown", f, [CallPred(r"::doUnsafeFullWipe$")], [(r"empty\(.*safeURIs", True)], "all is wiped at once only if nothing is retained", allow=near)
        flows(ctx, "unknown", f, CallPred(r"^fdb5::Catalogue\w*::doWipeUnknowns$"), {0: r"catalogue$"}, "the catalogue deletes the unknown items it reported", allow=near)
        flows(ctx, "unknown", f, CallPred(r"^fdb5::Store\w*::doWipeUnknowns$"), {0: r"store\b"}, "each store deletes the unknown items it reported", allow=near)
    for f in F(C + "::gatherUnknowns"):
        def nx(d, fr, i):
            t = sym.r(fr.fn, fr.fn.n[i][3][0], fr.env) if fr.fn.n[i][3] else ""
            if "unknownURIs_" in t and d.get("b") is not True and not d.get("u"):
                return "an unknown item is dropped without belonging to anybody"

        pathfacts(ctx, "unknown", f, {"b": r"uriBelongs\("}, "an unknown item is dropped only if somebody else owns it", events={"u": [CallPred(r"set::(insert|emplace)$")]},
                  kills=[([CallPred(r"iterator\w*::operator\+\+$", obj="unknownURIs_")], ["b", "u"])], at=[(CallPred(r"iterator\w*::operator\+\+$"), nx)], allow=near, need_hits=True)

    # 5. what the removing calls are given
    for f in sorted(p.fns.values(), key=lambda g: g.id):
        if f.kind != "method" or not f.blocks or not f.file.startswith(("fdb5/toc", "fdb5/daos")):
            continue
        own = lambda g, c=f.cls: (g.cls == c or not g.cls) and g.name != "remove"
        RM = CallPred(r"::remove$")
        if f.name == "doWipeURIs":
            flows(ctx, "delete", f, RM, {0: r"elem\(.*(deleteMap|deleteURIs_|dataAuxiliaryURIs|includedDataURIs)"}, "removes what is marked for deletion only", allow=own)
            sets = [i for i, x in enumerate(f.n) if x[0] == "assign" and sym.r(f, x[3][0]).startswith("this.") and sym.r(f, x[3][1]) == "true"]
            if sets:
                pathfacts(ctx, "delete", f, {"all": r"empty\(.*safeURIs"}, "the database is emptied only if nothing is retained",
                          at=[(AssignPred(r"^this\.\w+$", "^true$"), lambda d, fr, i: None if d.get("all") else "the database is to be removed though something in it is retained")], allow=own, need_hits=True)
        if f.name == "doWipeUnknowns":
            flows(ctx, "delete", f, RM, {0: rf"elem\({par(f, 0)}\)"}, "removes the unknown items given only", allow=own)
        if f.name == "doWipeEmptyDatabase":
            guarded(ctx, "delete", f, [RM], [(r"^this\.cleanup\w*_$", True)], "the container goes only if emptied", allow=own)
            flows(ctx, "delete", f, RM, {0: r"this\.(directory_|uri\()|this\.pool_.*this\.db_cont_"}, "its own container", allow=own)
        if f.name == "remove" and len(f.params) == 4 and any(last(inf["q"]) in ("rmdir", "unlink", "destroy") for _, inf in f.calls()):
            RM2 = CallPred(r"::(unlink|rmdir|destroy)$")
            flows(ctx, "delete", f, RM2, {}, "removes the thing given", obj=rf"^{par(f, 0)}|^local:n$|{par(f, 0)}", allow=own)
            if f.cls == "fdb5::DaosStore":
                guarded(ctx, "delete", f, [RM2], [(r"pool_==this\.pool_|this\.pool_==", True)], "an object of another pool is refused", allow=own)
                guarded(ctx, "delete", f, [RM2], [(r"==this\.db_cont_|this\.db_cont_==", True)], "an object of another container is refused", allow=own)
            for i, inf in f.calls():
                if last(inf["q"]) in ("removeAll", "deldir"):
                    ctx.ob("delete", f"{f.q}: removes no directory with its contents", False, f.loc(i))

    # 6. the store server trusts only what the catalogue signed
    H = "fdb5::remote::StoreHandler"
    for f in F(H + "::finaliseWipeState"):
        own = lambda g: g.cls == H or not g.cls
        SIG = CallPred(r"Signature::validSignature$")
        guarded(ctx, "remote", f, [CallPred(r"Store::finaliseWipeState$"), CallPred(r"StoreWipeState::(includeData|excludeData|insertAuxiliaryURI)$"), CallPred(r"wipesInProgress_|map::(emplace|insert)$", obj="wipesInProgress_")],
                [(r"validSignature\(|signature_==|==.*signature_", True)], "nothing is prepared for deletion unless the list was signed", allow=own)
        flows(ctx, "remote", f, CallPred(r"StoreWipeState::includeData$"), {0: r"includedDataURIs|elem\("}, "data to delete is what was signed", allow=own, required=False)
    for f in sorted(p.fns.values(), key=lambda g: g.id):
        if f.cls in (H, "fdb5::remote::CatalogueHandler") and f.name.startswith("do") and "ipe" in f.name and f.blocks:
            tgt = [CallPred(r"^fdb5::(Store|Catalogue)\w*::(doWipeURIs|doWipeUnknowns|doUnsafeFullWipe|doWipeEmptyDatabase|maskIndexEntries|doWipe\w*)$")]
            if any(tgt[0].quick(inf) for _, inf in f.calls()):
                ordered(ctx, "remote", f, [CallPred(r"::cachedWipeState$"), CallPred(r"map::(find|at)$", obj=r"wipesInProgress_|wipesInProgress")], tgt, "only a wipe prepared before is carried out", allow=lambda g, c=f.cls: g.cls == c or not g.cls)
