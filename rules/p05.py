"""Static decision of "newest first, first match wins": path counting of the order reversal, path facts of the search loops and
of the duplicate filter, provenance of the order flags, direction of iteration."""
import re

from vt.lib import AssignPred, CallPred, flows, guarded, in_order, last, never_after, ordered, par, pathfacts, tally
from vt.prog import Sym

TECHNIQUE = "path counting of order reversals, path-sensitive facts of search loops and duplicate filters, provenance of order flags"
ASSUMPTIONS = ["records of a table of contents are read in file order (decided with P06), so that reversal puts the newest first",
               "metkit HyperCubePayloaded::add keeps the element which the deduplicator prefers"]
FLOORS = {"newest-first": 5, "first-match": 4, "direction": 4, "dedup": 5}

NEXT = [CallPred(r"iterator\w*::operator\+\+$"), AssignPred(r"^local:", None, ("++", "p++", "+="))]


def run(ctx):
    p = ctx.p
    F = p.find
    sym = Sym(p)

    for f in F("fdb5::TocHandler::loadIndexes"):
        srt, ins, rem = par(f, 0), par(f, 2), par(f, 3)
        own = lambda g: (g.cls == "fdb5::TocHandler" or not g.cls) and g.name not in ("readNext", "databaseKey", "openForRead") and g.kind != "ctor"
        names = {sym.r(f, x[3][0]) for x in f.n if x[0] == "return" and x[3]}
        ctx.need(len(names) == 1, f"loadIndexes returns several variables {names}")
        out = re.escape(names.pop())
        rv = lambda o: CallPred(r"^std::reverse$", args={0: rf"^iter\({o}\)$", 1: rf"^end\({o}\)$"})
        early = [(r"tocPath_\.exists\(\)$", False)]
        tally(ctx, "newest-first", f, [rv(out)], "indexes are put newest first, once, unless sorting by location was asked for", sanction=[(f"^{srt}$", True), *early], allow=own)
        tally(ctx, "newest-first", f, [rv(ins)], "sub-table marks follow the same order", sanction=[(f"^{srt}$", True), (f"^{ins}$", False), *early], allow=own)
        tally(ctx, "newest-first", f, [rv(rem)], "remap keys follow the same order", sanction=[(f"^{srt}$", True), (f"^{rem}$", False), *early], allow=own)
        add = CallPred(r"vector::(emplace_back|push_back|insert|emplace)$", obj=rf"^({out}|{ins}|{rem})$")
        never_after(ctx, "newest-first", f, [CallPred(r"^std::reverse$")], [add], "nothing is added after the reversal", allow=own)
        guarded(ctx, "newest-first", f, [CallPred(r"^std::(stable_)?sort$", args={0: out})], [(f"^{srt}$", True)], "sorted by location only on demand", allow=own, required=False)
        # index k of the result is the k-th record read
        bad = []
        n = 0
        for g in [f] + [h for h in p.fns.values() if h.kind == "lambda" and f in p.family(h)]:
            for i, x in enumerate(g.n):
                if x[0] == "assign" and x[2] == "=" and "new(fdb5::TocIndex" in sym.r(g, x[3][1]):
                    n += 1
                    t = g.n[x[3][0]]
                    ix = sym.r(g, (g.args(x[3][0]) or t[3][1:])[0]) if t[0] in ("call", "idx") else "?"
                    if not re.search(r"(^|[.])seqNo$|idx|\bi$", ix) or "rev(" in ix:
                        bad.append((g.loc(i), ix))
        ctx.ob("newest-first", f"{f.q}: each index is placed at the position of its record", n > 0 and not bad, bad[0][0] if bad else f.loc(), str(bad))
        rec = CallPred(r"vector::(emplace_back|push_back)$", args={0: r"^\{?.*\.size\(\),"})
        flows(ctx, "newest-first", f, CallPred(r"vector::(emplace_back|push_back)$", obj="indexEntries"), {0: r"\{local:indexEntries\.size\(\),"}, "records are numbered in the order read", required=False, allow=own)
        flows(ctx, "newest-first", f, CallPred(r"vector::(emplace_back|push_back)$", obj=rf"^{out}$"), {0: r"^(?!.*rev\()"}, "indexes are taken in record order", allow=own)

    R = "fdb5::TocCatalogueReader"
    for f in F(R + "::loadIndexesAndRemap"):
        flows(ctx, "newest-first", f, CallPred(r"::loadIndexes$"), {0: r"^(false|0)$", 3: r"^local:"}, "the reader asks for the newest first")
        pr = CallPred(r"vector::(emplace_back|push_back)$", obj=r"this\.indexes_$")
        flows(ctx, "direction", f, pr, {0: r"^(?!.*rev\()"}, "kept in that order")
        n, bad = 0, []
        for i, inf in f.calls():
            if last(inf["q"]) in ("emplace_back", "push_back") and sym.r(f, f.obj(i)) == "this.indexes_":
                ix = set()
                for a in f.args(i):
                    for j in f.walk(a):
                        y = f.n[j]
                        if y[0] == "call" and last(y[2]["q"]) in ("operator[]", "at") and f.args(j):
                            z = f.args(j)[0]
                            while f.n[z][0] == "cast":
                                z = f.n[z][3][0]
                            ix.add(f"{f.n[z][2][:1]}" if f.n[z][0] == "ref" else sym.r(f, z))
                n += 1
                if len(ix) > 1:
                    bad.append((f.loc(i), str(ix)))
        ctx.ob("newest-first", f"{f.q}: each index is paired with its own remap key", n > 0 and not bad, bad[0][0] if bad else f.loc(), str(bad))
    for f in F(R + "::selectIndex"):
        K = par(f, 0)
        EQ = rf"(\.key(_|\(\))=={K}$|^{K}==.*\.key(_|\(\))$)"
        push = CallPred(r"vector::(push_back|emplace_back)$", obj=r"this\.matching_$")
        SAME = rf"^(this\.currentIndexKey_=={K}|{K}==this\.currentIndexKey_)$"
        ordered(ctx, "first-match", f, [CallPred(r"vector::clear$", obj=r"this\.matching_$")], [push], "matches of an earlier selection are dropped")
        flows(ctx, "direction", f, push, {0: r"elem\(this\.indexes_\)"}, "matches are collected from the newest index on")
        in_order(ctx, "direction", f, r"^this\.indexes_$", "indexes are considered from first to last")

        def at(d, fr, i):
            if d.get("eq") and not d.get("push"):
                return "an index with the wanted key may be passed over"

        pathfacts(ctx, "first-match", f, {"eq": EQ}, "all indexes of the wanted key are searched", events={"push": [push]}, at=[(x, at) for x in NEXT], kills=[(NEXT, ["eq", "push"])],
                  check=lambda o, d: None)
        guarded(ctx, "first-match", f, [push], [(EQ, True)], "only indexes of the wanted key are searched")

        def chk(o, d):
            if not d.get("same") and not d.get("cleared"):
                return "returns without having selected the indexes of the key"

        pathfacts(ctx, "first-match", f, {"same": SAME}, "selection is repeated unless the key is the current one", events={"cleared": [CallPred(r"vector::clear$", obj=r"this\.matching_$")]}, check=chk, boolean=False)
    for f in F(R + "::retrieve"):
        get = CallPred(r"^fdb5::Index(Base)?::get$")
        may = CallPred(r"^fdb5::Index(Base)?::mayContain$")

        def chk(o, d):
            if o is True and d.get("got") is not True:
                return "reports success without a match"
            if o is False and d.get("got"):
                return "reports failure in spite of a match"

        def at(d, fr, i):
            if d.get("got"):
                return "the search goes on after a match, so that an older copy replaces the newest"

        def skip(d, fr, i):
            if d.get("may") and not d.get("asked"):
                return "an index that may contain the field is passed over"

        pathfacts(ctx, "first-match", f, {"got": r"\.get\(", "may": r"mayContain|axes_\.contains\("}, "the first match ends the search", check=chk, allow=lambda g: g.cls == R or not g.cls, kills=[([get], ["got"]), ([may], ["may", "asked"])],
                  at=[(get, at), (may, skip)] + [(x, skip) for x in NEXT], events={"asked": [get]}, need_hits=True)
        flows(ctx, "direction", f, get, {0: par(f, 0), 2: par(f, 1)}, "the newest index is asked first", obj=r"elem\(this\.matching_\)")
        in_order(ctx, "direction", f, r"^this\.matching_$", "candidates are asked from first to last")
    for f in F(R + "::indexes"):
        guarded(ctx, "direction", f, [CallPred(r"^std::(stable_)?sort$")], [("^" + par(f, 0) + "$", True)], "listing order is newest first unless sorted")
        flows(ctx, "direction", f, CallPred(r"vector::(emplace_back|push_back)$"), {0: r"elem\(this\.indexes_\)"}, "indexes listed in order")
        in_order(ctx, "direction", f, r"^this\.indexes_$", "indexes are listed from first to last")
    for f in F("fdb5::EntryVisitMechanism::visit"):
        flows(ctx, "direction", f, CallPred(r"^fdb5::Catalogue\w*::visitEntries$"), {1: r"^(false|0)$"}, "entries are visited newest first", allow=lambda g: g.cls == "fdb5::EntryVisitMechanism" or not g.cls)
    for f in F("fdb5::Catalogue::visitEntries"):
        flows(ctx, "direction", f, CallPred(r"::indexes$"), {0: par(f, 1)}, "order flag passed on", allow=lambda g: g.cls == "fdb5::Catalogue" or not g.cls)
        flows(ctx, "direction", f, CallPred(r"^fdb5::Index\w*::entries$"), {}, "indexes visited in order", obj=r"elem\((?!rev)", allow=lambda g: g.cls == "fdb5::Catalogue" or not g.cls)

        in_order(ctx, "direction", f, r"indexes", "indexes are visited from first to last")

    # duplicate filter
    for f in F("fdb5::ListIterator::next"):
        M = r"fdb5::ListMode::%s==this\.mode_$|this\.mode_==fdb5::ListMode::%s$"
        nxt = CallPred(r"APIIterator::next$")

        def chk(o, d):
            if o is not True or d.get("full") or d.get("more") is not True:
                return None if o is not True or d.get("full") or d.get("more") else "an element is returned though there is none"
            if d.get("first") is None and (d.get("de") is not False or d.get("od") is not False):
                return "an element is returned without having been looked up among those seen"
            if d.get("first") is False and d.get("de") is not False and not d.get("od"):
                return "an element that was seen before is returned"
            if d.get("first") and d.get("od") is not False and not d.get("de"):
                return "an element is reported as duplicate when first seen"

        def at(d, fr, i):
            if d.get("more") and (d.get("full") or d.get("first") and (d.get("od") is False or d.get("de"))):
                return "the newest copy of an element is dropped"

        pathfacts(ctx, "dedup", f, {"full": M % ("Full", "Full"), "de": M % ("Deduplicate", "Deduplicate"), "od": M % ("OnlyDuplicates", "OnlyDuplicates"), "first": r"tryInsert\(", "more": r"\.next\("},
                  "keeps the first copy of each element", check=chk, exclusive=[("full", "de", "od")], allow=lambda g: g.cls == "fdb5::ListIterator" or not g.cls, kills=[([nxt], ["first", "more"])], at=[(nxt, at)], need_hits=True)
        flows(ctx, "dedup", f, CallPred(r"KeyStore::tryInsert$"), {0: r"\.keys(_|\(\))$|keyParts_$"}, "looked up by its keys", obj=r"this\.seenKeys_$")
    for f in F("fdb5::KeyStore::tryInsert"):
        idx = set()
        P0 = "param:" + f.params[0][0]
        for i, inf in f.calls():
            if last(inf["q"]) in ("operator[]", "at") and sym.r(f, f.obj(i)) == P0:
                idx.add(sym.r(f, f.args(i)[0]))
        allp = any(x[0] == "forrange" and P0 in str([sym.r(f, c) for c in x[3]]) for x in f.n)
        ctx.ob("dedup", f"{f.q}: all three levels of the key identify an element", idx >= {"0", "1", "2"} or allp, f.loc(), str(sorted(idx)))
        ins = CallPred(r"set::(insert|emplace)$")
        tally(ctx, "dedup", f, [ins], "the key is recorded")
        ctx.ob("dedup", f"{f.q}: reports whether the key was new", any(x[0] == "return" and x[3] and re.search(r"ins|second|insert\(", rendered(p, f, x[3][0])) for x in f.n), f.loc(), "")
    for f in F("fdb5::ListElementDeduplicator::toReplace"):
        for i, x in enumerate(f.n):
            if x[0] == "return":
                fm = sym.formula(f, x[3][0])
                a, b = par(f, 0), par(f, 1)
                ok = fm[0] == "atom" and fm[2] and re.fullmatch(rf"{a}\.timestamp(_|\(\))<{b}\.timestamp(_|\(\))", fm[1])
                ctx.ob("dedup", f"{f.q}: the newer element replaces the older", bool(ok), f.loc(i), str(fm))
    for f in F("fdb5::FDB::list"):
        flows(ctx, "dedup", f, CallPred(r"^fdb5::FDB::list$|fdb5::ListIterator::<ctor>$"), {1: par(f, 1)}, "duplicate masking is passed on", required=False, allow=lambda g: g is f)
    n = 0
    for g in sorted(p.fns.values(), key=lambda g: g.id):
        if not g.file.startswith("fdb5/"):
            continue
        for i, inf in g.calls():
            if inf["q"].endswith("HyperCubePayloaded::add") and len(g.args(i)) == 2:
                a = [ident(g, x) for x in g.args(i)]
                n += 1
                ctx.ob("dedup", f"{g.q}: payload belongs to the key under which it is added", a[0] is not None and a[0] == a[1], g.loc(i), str([sym.r(g, x) for x in g.args(i)]))
    ctx.need(n >= 1, "no hypercube deduplication found")


def rendered(p, f, i):
    s = Sym(p).r(f, i)
    if s.startswith("local:") or "binding" in s:
        return s
    return s


def ident(g, i):
    """the variable an expression is taken from"""
    for j in [i] + list(g.walk(i)):
        y = g.n[j]
        if y[0] == "ref" and y[2][1] in ("local", "param", "binding"):
            return y[2][2]
    return None
