"""Static decision of masking: path facts (which record tag, whether the mask was looked up and found, whether masked entries
are wanted) at every return of the table-of-contents reader, and at every record of the pass that collects the masks."""
import re

from vt.lib import AssignPred, CallPred, codec, flows, guarded, last, must_pass, ordered, par, parts, pathfacts, tagfacts
from vt.prog import Sym

TECHNIQUE = "interprocedural path-sensitive fact analysis of the table-of-contents reader, order of mask collection and reading, provenance of the masks written"
ASSUMPTIONS = ["std::set find/emplace semantics", "a masked sub-table is not entered, hence none of its indexes is returned"]
FLOORS = {"collect-first": 1, "filter": 4, "collect": 4, "readers": 1, "writers": 3, "names": 6}

T = "fdb5::TocRecord"
TAG = r"header_\.tag_"


def run(ctx):
    p = ctx.p
    F = p.find
    sym = Sym(p)
    own = lambda g: g.cls == "fdb5::TocHandler" or not g.cls
    # helpers of the function itself, not the other operations it starts
    near = lambda g: own(g) and g.kind != "ctor" and g.name not in ("preloadSubTocs", "databaseKey", "dbUID", "selectSubTocRead", "openForRead")
    tr, cs = tagfacts(T, ["TOC_INDEX", "TOC_SUB_TOC", "TOC_INIT", "TOC_CLEAR"], TAG)
    NF = r"end\(this\.maskedEntries_\)"
    FD = r"maskedEntries_\.(count|contains)\("

    def tagneg(d, t):
        return d.get(t) is False or any(d.get(o) for o in tr if o != t)

    reads = [CallPred(r"TocHandler::readNext(Internal)?$")]
    for f in F("fdb5::TocHandler::readNext"):
        pwalk, pmask = par(f, 1), par(f, 4)
        ordered(ctx, "collect-first", f, [CallPred(r"TocHandler::populateMaskedEntriesList$")],
                [CallPred(r"TocHandler::(readNextInternal|readNext|parseSubTocRecord|selectSubTocRead|ignoreIndex)$")],
                "all masks of the table are known before the first record is read",
                sanction=[(r"this\.enumeratedMaskedEntries_$", True), (f"^{pwalk}$", False)], allow=own)

        def chk(o, d, pwalk=pwalk):
            if o is not True or d.get("walk") is False or tagneg(d, "TOC_INDEX") or d.get("ign") is False:
                return None
            return "an index record is handed out without having been looked up among the masks"

        pathfacts(ctx, "filter", f, {**tr, "walk": f"^{pwalk}$", "ign": r"this\.ignoreIndex\("}, "index records are returned only if not masked", check=chk, cases=cs,
                  kills=[(reads, [*tr, "ign"])], allow=own)
        guarded(ctx, "filter", f, [CallPred(r"TocHandler::selectSubTocRead$")],
                [(r'(LocalPathName\(""|^"").*==.*parseSubTocRecord\(|parseSubTocRecord\(.*==.*LocalPathName\(""', False), (r"empty\(.*parseSubTocRecord", False)],
                "a sub-table is entered only if not masked", allow=own)
        flows(ctx, "filter", f, CallPred(r"TocHandler::readNext$"), {4: pmask, 1: pwalk}, "sub-tables are read in the same mode", allow=near)
        flows(ctx, "filter", f, CallPred(r"TocHandler::(ignoreIndex|parseSubTocRecord)$"), {0: par(f, 0), 1: pmask}, "the record just read is looked up, in the mode given", allow=near)

    def found(d):
        return True if (d.get("nf") is False or d.get("fd")) else False if (d.get("nf") or d.get("fd") is False) else None

    for f in F("fdb5::TocHandler::ignoreIndex"):
        pm = par(f, 1)

        def chk(o, d):
            if o is False and found(d) is not False and d.get("masked") is not True:
                return "an index that is masked, or was not looked up, is reported as visible"
            if o is True and found(d) is not True:
                return "an index that is not masked is hidden"

        pathfacts(ctx, "filter", f, {"nf": NF, "fd": FD, "masked": f"^{pm}$"}, "hides exactly the masked indexes", check=chk)
    for f in F("fdb5::TocHandler::parseSubTocRecord"):
        pm = par(f, 1)

        def chk(txt, d):
            none = txt == '""' or 'LocalPathName(""' in txt
            if not none and found(d) is not False and d.get("masked") is not True:
                return "a sub-table that is masked, or was not looked up, is returned"
            if none and found(d) is not True:
                return "a sub-table that is not masked is hidden"

        pathfacts(ctx, "filter", f, {"nf": NF, "fd": FD, "masked": f"^{pm}$"}, "hides exactly the masked sub-tables", check=chk, boolean=False)

    # collection of masks
    emp = CallPred(r"set::(emplace|insert)$")
    for f in F("fdb5::TocHandler::populateMaskedEntriesList"):
        EMP = CallPred(r"set::(emplace|insert)$", obj=r"maskedEntries_$")
        ALL = CallPred(r"TocHandler::allMaskableEntries$")

        def at(d, fr, i):
            if d.get("TOC_CLEAR") and d.get("star") is not False and not d.get("all"):
                return "a clear-all record may be passed over"
            if d.get("TOC_CLEAR") and d.get("star") is not True and not d.get("one"):
                return "a clear record may be passed over"

        pathfacts(ctx, "collect", f, {**tr, "star": r'"\*"'}, "every clear record adds its mask", cases=cs, events={"one": [EMP], "all": [ALL]},
                  kills=[([CallPred(r"TocHandler::readNextInternal$")], [*tr, "star", "one", "all"])], at=[(CallPred(r"TocHandler::readNextInternal$"), at)], allow=own, need_hits=True)
        flows(ctx, "collect", f, ALL, {0: r"position\(\)", 1: r"position\(\)", 2: r"maskedEntries_"}, "a clear-all record masks what precedes it", allow=own)
        must_pass(ctx, "collect", f, [CallPred(r"CachedFDProxy::seek$", args={0: r"position\(\)"})], what="the read position is restored", allow=own)
        ordered(ctx, "collect", f, [CallPred(r"(set::clear)$", obj=r"maskedEntries_$")], [EMP, ALL], "starts from no masks", allow=own)
        must_pass(ctx, "collect", f, [], assigns=[AssignPred(r"this\.enumeratedMaskedEntries_$", r"^true$")], what="the masks are marked as known", allow=own)
        # and only once all records were seen
        loops_left(ctx, f)
    for f in F("fdb5::TocHandler::allMaskableEntries"):
        EMP = CallPred(r"set::(emplace|insert)$", obj=par(f, 2))

        def at(d, fr, i):
            if (d.get("TOC_INDEX") or d.get("TOC_SUB_TOC")) and not d.get("one"):
                return "a maskable record may be passed over"

        pathfacts(ctx, "collect", f, tr, "every index and sub-table in the range is masked", cases=cs, events={"one": [EMP]},
                  kills=[([CallPred(r"TocHandler::readNextInternal$")], [*tr, "one"])], at=[(CallPred(r"TocHandler::readNextInternal$"), at)], allow=own, need_hits=True)
        for i, x in enumerate(f.n):
            if x[0] in ("while", "for", "do"):
                c = x[3][0] if x[0] == "while" else x[3][1] if x[0] == "for" and len(x[3]) > 2 else x[3][-1]
                fm = sym.formula(f, c)
                ok = fm[0] == "atom" and re.search(r"position\(\)<" + par(f, 1), fm[1]) and fm[2]
                ctx.ob("collect", f"{f.q}: covers the records before the clear record only, all of them", bool(ok), f.loc(i), str(fm))

    # masks are kept and looked up under the same form of name: the base name of the file, and the offset (zero for a sub-table)
    key = lambda fr, i: parts(sym, fr.fn, fr.fn.args(i)[0], fr.env) if len(fr.fn.args(i)) == 1 else [sym.r(fr.fn, a, fr.env) for a in fr.fn.args(i)]

    def named(d, fr, i):
        k = key(fr, i)
        if len(k) != 2:
            return None
        if not d.get("TOC_INDEX") and "baseName(" not in k[0] and not stem(fr, i):
            return f"a mask is kept under `{k[0]}`, which is not the base name that is looked up"
        if d.get("TOC_SUB_TOC") and k[1] != "0":
            return f"a mask of a sub-table is kept for offset `{k[1]}`"

    def stem(fr, i):
        # a name assigned from a base name before
        t = key(fr, i)[0]
        v = [sym.r(fr.fn, y[3][1]) for y in fr.fn.n if y[0] == "assign" and len(y[3]) > 1 and sym.r(fr.fn, y[3][0]) == t]
        return bool(v) and all("baseName(" in y for y in v)

    MASKS = r"maskedEntries"
    for q in ("allMaskableEntries", "populateMaskedEntriesList"):
        for f in F("fdb5::TocHandler::" + q):
            pathfacts(ctx, "names", f, tr, "masks are kept by base name", cases=cs, kills=[([CallPred(r"TocHandler::readNextInternal$")], tr)],
                      at=[(CallPred(r"set::(emplace|insert)$"), named)], allow=own, need_hits=True)
    for q, off in (("ignoreIndex", r"^(?!0$)"), ("parseSubTocRecord", "^0$"), ("enumerateMasked", r"^(?!0$)")):
        for f in F("fdb5::TocHandler::" + q):
            n, bad = 0, []
            for g in [f] + [h for h in p.fns.values() if h.cls == f.cls and h.id in p.callees(f) and h.name not in ("openForRead", "readNext")]:
                for i, inf in g.calls():
                    if last(inf["q"]) in ("find", "count", "contains") and inf["q"].startswith("std::set") and MASKS in sym.r(g, g.obj(i)):
                        k = parts(sym, g, g.args(i)[0])
                        n += 1
                        if len(k) != 2 or "baseName(" not in k[0] or not re.search(off, k[1]):
                            if not any(t.startswith("param:") for t in k):
                                bad.append((g.loc(i), str(k)))
            ctx.ob("names", f"{f.q}: masks are looked up by base name and offset", n > 0 and not bad, bad[0][0] if bad else f.loc(), bad[0][1] if bad else f"{n} site(s)")
    for g in sorted(p.fns.values(), key=lambda g: g.id):
        if g.file == "fdb5/toc/TocHandler.cc" and any(x[0] == "call" and x[2]["q"].endswith("Index::type") for x in g.n):
            c = [(o, t, a) for _, o, t, a in codec(p, g) if o == "<<"]
            if len(c) >= 3:
                ctx.ob("names", f"{g.q}: index records carry the base name that is masked", "baseName(" in c[0][2] and "offset" in c[1][2], g.loc(), str(c)[:300])

    # re-opening forgets masks of an earlier state of the table
    for f in F("fdb5::TocHandler::openForRead"):
        opn = [CallPred(r"^open$")]
        from vt.lib import followed
        followed(ctx, "collect", f, opn, [CallPred(r"set::clear$", obj=r"maskedEntries_$")], "masks are forgotten when the table is read anew", either=True, allow=own)
        followed(ctx, "collect", f, opn, [], "masks are collected again when the table is read anew", tassign=[AssignPred(r"this\.enumeratedMaskedEntries_$", r"^false$")], either=True, allow=own)
    for g in sorted(p.fns.values(), key=lambda g: g.id):
        if "Toc" in (g.cls or "") or g.kind == "lambda":
            for i, x in enumerate(g.n):
                if x[0] == "assign" and sym.r(g, x[3][0]).endswith(".enumeratedMaskedEntries_") and sym.r(g, x[3][1]) == "true":
                    ctx.ob("collect", f"{g.q}: marks masks as known", g.name == "populateMaskedEntriesList", g.loc(i), "only the function that collects the masks may do so")

    # readers that serve fields ask for unmasked entries only
    for f in F("fdb5::TocHandler::loadIndexes"):
        flows(ctx, "readers", f, CallPred(r"TocHandler::readNext$"), {1: "^(true|1)$", 4: "^(false|0)$"}, "indexes are loaded with masks applied", allow=near)

    # what is written when masking
    def written(f, want, what):
        c = [(o, t, a) for _, o, t, a in codec(p, f) if o == "<<"]
        ok = len(c) == len(want) and all(re.search(w, a[2]) for w, a in zip(want, c))
        ctx.ob("writers", f"{f.q}: {what}", ok, f.loc(), str(c)[:300])

    for g in sorted(p.fns.values(), key=lambda g: g.id):
        if g.name == "operator()" and g.file == "fdb5/toc/TocHandler.cc" and g.cls in p.subclasses("fdb5::IndexLocationVisitor") and "buildClearRecord" in g.cls + g.id + (g.parent_fn or "") or \
                g.name == "operator()" and "TocIndexLocationExtracter" in g.cls:
            written(g, [r"baseName\(", r"offset"], "the mask names the file and offset of the index")
    for f in F("fdb5::TocHandler::writeClearAllRecord"):
        written(f, [r'"\*"', r"^\{?0\}?$"], "the mask covers everything")
    for f in F("fdb5::TocHandler::buildSubTocMaskRecord"):
        if len(f.params) == 2:
            written(f, ["^" + par(f, 1), r"^\{?0\}?$"], "the mask names the sub-table, at offset zero")
    for q in ("fdb5::TocHandler::writeClearRecord", "fdb5::TocHandler::writeClearAllRecord", "fdb5::TocHandler::writeSubTocMaskRecord"):
        for f in F(q):
            tgt = [CallPred(r"TocHandler::(appendBlock|append\w*)$")]
            # written by this function, or by an index location visitor it runs
            must_pass(ctx, "writers", f, tgt, what="the mask is appended to the table", sanction=[])
            flows(ctx, "writers", f, CallPred(r"TocHandler::(appendBlock|append)$"), {0: r"TOC_CLEAR|^param:"}, "with the tag of a mask")


def loops_left(ctx, f):
    """the collecting loop ends only when there is no further record"""
    sym = Sym(ctx.p)
    for h, body in f.loops:
        te = f.blocks[h][2]
        for b in body:
            for t in f.blocks[b][1]:
                if t >= 0 and t not in body:
                    tb = f.blocks[b][2]
                    s = str(sym.formula(f, tb[1])) if tb and tb[1] >= 0 else ""
                    nr = f.blocks[t][4]
                    ctx.ob("collect", f"{f.q}: reads the table to its end", bool(nr) or "readNextInternal" in s, f.loc(tb[1]) if tb and tb[1] >= 0 else f.loc(), s[:200])
