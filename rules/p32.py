"""C++ side (src/chunked_data_view): every place where a chunk is assembled is followed along all of its paths.
`ChunkedDataViewImpl::at` uses no index of another dimension or outside the view, lets every part that meets the chunk fill its
intersection, and returns only if each of them wrote as many fields as the intersection has. The extractor places a message only
at the cell computed from its key, only if the cell ends within the buffer, the message has the size of the view's fields and the
cell has not been filled before, and counts exactly the messages it placed, reading its iterator to the end; so the cells that
were filled are as many and as different as those of the intersection. Cells are computed from positions that were checked
against the chunk. Views whose parts do not fit together (axes, extents, chunking, field sizes, a missing extension axis) are
refused when they are built, and every chunk lies whole inside the view. Python side: the buffer is allocated for the length that
is passed on, keys outside the view raise, and what is handed to zarr is what the view returned; writes raise.
"""
import ast
import re

from vt import bind, pyflow
from vt.lib import CallPred, AssignPred, below, last, loop_of, must_pass, pathfacts
from vt.prog import Sym
from vt.pyflow import Flow, Mod

TECHNIQUE = "path-sensitive dataflow over the C++ of the chunked view, polynomial normal forms of index computations, and a path interpreter for the Python wrappers"
ASSUMPTIONS = ["eckit::Assert does not return when it fails (its failure aborts or throws)", "Reader::next yields every message of a handle, getFloatArray fills the number of values it is given"]
FLOORS = {"reject": 20, "fill": 8, "cells": 8, "tiles": 5, "python": 12}
DIR = "chunked_data_view/"


def own(g):
    return g.file.startswith(DIR)


def same(f):
    return lambda g: g.file == f.file


def esc(t):
    return re.escape(t)


def conds(p, sym, f):
    """[(function, node, atom, polarity under which the branch is taken)] of every condition below f in its file"""
    out = []
    for g in below(p, f, same(f)):
        for i, x in enumerate(g.n):
            if x[0] in ("if", "cond", "while", "for") and x[3]:
                c = x[3][0] if x[0] != "for" else None
                if c is None:
                    continue
                for a, pol in atoms(sym.formula(g, c, None, True)):
                    out.append((g, i, a, pol))
    return out


def atoms(form):
    if form[0] == "atom":
        return [(form[1], form[2])]
    if form[0] in ("and", "or"):
        return [y for z in form[1] for y in atoms(z)]
    return []


def whole(ctx, p, sym, g, i, sanction=()):
    """None if the loop around a node visits everything from the first on and reaches the node in every iteration, except under
    conditions matching `sanction`; else why not"""
    l = loop_of(g, i)
    if l is None:
        return None
    sub = set(g.walk(l))
    for j in sub:
        if g.n[j][0] in ("break", "continue"):
            a = next((k for k in g.ancestors(j) if g.n[k][0] == "if"), None)
            t = " ".join(x for x, _ in atoms(sym.formula(g, g.n[a][3][0], None, True))) if a is not None else ""
            if not any(re.search(s, t) for s in sanction):
                return f"elements may be skipped at {g.loc(j)}"
    for a in g.ancestors(i):
        if a == l:
            break
        if g.n[a][0] == "if" and i not in set(g.walk(g.n[a][3][0])):
            t = " ".join(x for x, _ in atoms(sym.formula(g, g.n[a][3][0], None, True)))
            if not any(re.search(s, t) for s in sanction):
                return f"done only under a condition at {g.loc(a)}"
    for k in [a for a in g.ancestors(i) if g.n[a][0] in ("for", "while", "do")]:
        why = full(p, sym, g, k)
        if why:
            return why
    return None


def full(p, sym, g, l):
    """None if a counting loop runs over all the positions of something (those of the parts may start with the second), else why not"""
    if g.n[l][0] != "for":
        return None
    te = [t for _, (el, su, t, la, nr) in g.blocks.items() if t and t[1] >= 0 and t[0] == "ForStmt" and t[1] in set(g.walk(l))]
    inner = {t[1] for t in te for m in g.walk(l) if m != l and g.n[m][0] in ("for", "while", "forrange", "do") and t[1] in set(g.walk(m))}
    te = [t for t in te if t[1] not in inner]
    if len(te) != 1:
        return None
    ats = atoms(sym.formula(g, te[0][1], None, True))
    if len(ats) != 1:
        return f"ends on {ats}"
    a, pol = ats[0]
    up = re.match(r"^local:\w+<(.*(size|dimensions)\(\)|.*(size_))$", a)
    down = re.match(r"^local:\w+<0$|^0<local:\w+$", a)
    it = re.search(r"==|atend\(", a) and "end" in a
    if not (up and pol or down or it):
        return f"ends on {a[:80]}"
    head = [j for j in g.n[l][3] if j is not None and j >= 0]
    v = next((j for j in g.walk(head[0]) if g.n[j][0] == "var"), None) if head else None
    if v is not None and g.n[v][3]:
        init = sym.r(g, g.n[v][3][0])
        ok = init in ("0", "{0}") or init == "1" and "arts" in a if up else re.search(r"(size|dimensions)\(\)(-1\)?)?$", init) if down else True
        if not ok:
            return f"starts at {init}"
    return None


def rejects(ctx, f, rx, bad, what, sanction=(), always=True, rule="reject"):
    """f does not complete when the condition has the value `bad`, and the condition is evaluated (in every iteration of its loop)"""
    p, sym = ctx.p, Sym(ctx.p)
    seen = set()

    def check(out, facts):
        seen.add(facts.get("t"))
        if facts.get("t") is bad:
            return "completes although it was refused"
        return None
    pathfacts(ctx, rule, f, {"t": rx}, what, check=check, boolean=False, allow=same(f), follow=same(f))
    ctx.ob(rule, f"{f.q}: {what}: is looked at", (not bad) in seen and (None not in seen or not always), f.loc(), "" if (not bad) in seen else "the condition is not evaluated on the way to a normal end")
    for g, i, a, _ in conds(p, sym, f):
        if re.search(rx, a):
            why = whole(ctx, p, sym, g, i, sanction)
            ctx.ob(rule, f"{f.q}: {what}: for every element", why is None, g.loc(i), why or "")


def value(text, env):
    """the text of an arithmetic expression as a number, its operands replaced by numbers (None: it has other operands)"""
    t = text
    for k in sorted(env, key=len, reverse=True):
        t = t.replace(k, f"({env[k]})")
    t = re.sub(r"std::(max|min)\(", r"\1(", t)
    t = t.replace("/", "//").replace("&&", " and ").replace("||", " or ")
    m = re.match(r"^[\d\s()+*%/<>=!,\-]*$", re.sub(r"\b(max|min|and|or)\b", "", t))
    if not m:
        return None
    t = re.sub(r"\(([^()?]*(?:\([^()]*\)[^()?]*)*)\?", r"(\1?", t)
    try:
        return int(eval(t, {"__builtins__": {}, "max": max, "min": min}))  # digits and operators only
    except Exception:
        return None


def equal(text, want, names):
    """the two expressions agree as functions of the operands (polynomial identity on sample points)"""
    pts = [(3, 7, 2, 5), (4, 4, 9, 1), (2, 9, 30, 4), (7, 3, 5, 11), (12, 4, 9, 2), (10, 5, 2, 8), (1, 1, 1, 1), (13, 6, 4, 3), (100, 7, 3, 19)]
    for pt in pts:
        env = {n: v for n, v in zip(names, pt)}
        v = value(text, env)
        if v is None or v != want(*pt[:len(names)]):
            return False
    return True


def fn(ctx, q, nparams=None):
    fs = [f for f in ctx.p.find(q) if f.file.startswith(DIR) and (nparams is None or len(f.params) == nparams) and f.n]
    ctx.need(len(fs) == 1, f"{q}: {len(fs)} definitions in {DIR}")
    ctx.functions.add(fs[0].id)
    return fs[0]


NS = "chunked_data_view::"


def at(ctx):
    p, sym = ctx.p, Sym(ctx.p)
    f = fn(ctx, NS + "ChunkedDataViewImpl::at")
    ix, ptr, ln = (a[0] for a in f.params)
    grids = {m for g in ctx.p.fns.values() if g.q == NS + "ChunkedDataViewImpl::chunks" for x in g.n if x[0] == "return" and x[3] for m in [sym.r(g, x[3][0])]}
    shapes = {m for g in ctx.p.fns.values() if g.q == NS + "ChunkedDataViewImpl::chunkShape" and not g.params for x in g.n if x[0] == "return" and x[3] for m in [sym.r(g, x[3][0])]}
    ctx.need(len(grids) == 1 and len(shapes) == 1, "chunks() or chunkShape() do not return a member")
    grid, shape = grids.pop(), shapes.pop()
    I = f"param:{ix}"
    rejects(ctx, f, rf"^({esc(I)}\.size\(\)=={esc(grid)}\.size\(\)|{esc(grid)}\.size\(\)=={esc(I)}\.size\(\))$", False, "an index of another dimension is refused")
    rejects(ctx, f, rf"^elem\({esc(I)}\)<elem\({esc(grid)}\)$", False, "an index outside the view is refused", always=False)
    ext = CallPred(r"::extractInto$")
    sect = CallPred(r"BoundingBox::intersect$")
    INT = r"^elem\((this\.\w+)\)\.(first|0)\.bb_\.intersect\([^()]*\)(\.has_value\(\))?$"
    EQ = r"(\.extractInto\(.*==.*\.entries\(\)|\.entries\(\)==.*\.extractInto\()"

    def done(facts):
        if facts.get("meets") is True and not facts.get("filled"):
            return "a part that meets the chunk is not asked to fill it"
        if facts.get("filled") and facts.get("count") is not True:
            return "the number of fields written is not known to be the number needed"
        return None
    pathfacts(ctx, "fill", f, {"meets": INT, "count": EQ}, "every part that meets the chunk fills all of its share, or the call fails",
              events={"filled": [ext]}, kills=[([sect], ["meets", "filled", "count"])], at=[(sect, lambda facts, fr, i: done(facts))],
              check=lambda out, facts: done(facts), need_hits=True, boolean=False, allow=same(f), follow=same(f))
    must_pass(ctx, "fill", f, [sect], forall=r"this\.\w+", what="every part of the view is looked at", allow=same(f))
    for g in below(p, f, same(f)):
        for i, inf in g.calls():
            if sect.quick(inf):
                why = whole(ctx, p, sym, g, i)
                l = loop_of(g, i)
                if l is not None:
                    sub = set(g.walk(l))
                    why = None
                    for j in sub:
                        if g.n[j][0] in ("break", "return") or g.n[j][0] == "continue" and loop_of(g, j) == l:
                            a = next((k for k in g.ancestors(j) if g.n[k][0] == "if"), None)
                            t = atoms(sym.formula(g, g.n[a][3][0], None, True)) if a is not None else []
                            if g.n[j][0] != "continue" or len(t) != 1 or not re.search(r"\.intersect\(", t[0][0]) or t[0][1] or re.search("entries|extractInto", t[0][0]):
                                why = f"parts may be skipped at {g.loc(j)}"
                ctx.ob("fill", f"{f.q}: parts are skipped only if they do not meet the chunk", why is None, g.loc(i), why or "")
            if ext.quick(inf):
                a = [sym.r(g, x) for x in g.args(i)]
                if g is f:
                    m = re.match(r"^elem\(this\.\w+\)\.first$", a[0])
                    ok = bool(m) and len(a) == 5 and a[2] == f"{a[0]}.bb_.intersect({a[1]})" and a[3] == f"param:{ptr}" and a[4] == f"param:{ln}"
                    ctx.ob("fill", f"{f.q}: a part fills its intersection with the chunk in the caller's buffer", ok, g.loc(i), str(a)[:300])
                    o = sym.r(g, g.obj(i))
                    ctx.ob("fill", f"{f.q}: by its own extractor", bool(re.match(r"^elem\(this\.\w+\)\.second$", o)), g.loc(i), o)
        # the chunk: index * shape .. index * shape + shape - 1
    boxes = [(i, [sym.r(f, x) for x in f.args(i)]) for i, x in enumerate(f.n) if x[0] == "new" and last(x[2]["q"].replace("::<ctor>", "")) == "BoundingBox" and len(f.args(i)) == 2]
    if boxes:
        lo, up = boxes[0][1]
        S, X, L = f"elem({shape})", f"elem({I})", f"elem({lo})"
        asg = {}
        for i, x in enumerate(f.n):
            if x[0] == "assign" and x[2] == "=":
                asg.setdefault(sym.r(f, x[3][0]), []).append((sym.r(f, x[3][1]), f.loc(i)))
        for i, inf in f.calls():
            if last(inf["q"]) in ("push_back", "emplace_back") and f.args(i):
                asg.setdefault(f"elem({sym.r(f, f.obj(i))})", []).append((sym.r(f, f.args(i)[0]), f.loc(i)))
        vals = asg.get(L, [])
        ctx.ob("fill", f"{f.q}: a chunk starts at its index times its shape", len(vals) == 1 and equal(vals[0][0], lambda s, x: s * x, (S, X)), vals[0][1] if vals else f.loc(), str(vals)[:200])
        vals = asg.get(f"elem({up})", [])
        ok = len(vals) == 1 and (equal(vals[0][0], lambda s, x, l: l + s - 1, (S, X, L)) or equal(vals[0][0], lambda s, x: (x + 1) * s - 1, (S, X)))
        ctx.ob("fill", f"{f.q}: and ends its shape further", ok, vals[0][1] if vals else f.loc(), str(vals)[:200])


def build(ctx):
    p, sym = ctx.p, Sym(ctx.p)
    fs = [f for f in p.fns.values() if f.kind == "ctor" and f.cls == NS + "ChunkedDataViewImpl" and len(f.params) == 3]
    ctx.need(len(fs) == 1, "constructor of ChunkedDataViewImpl not found")
    f = fs[0]
    ctx.functions.add(f.id)
    shape = r"this\.\w+"
    rejects(ctx, f, r"^this\.\w+<.*extension_\.size\(\)$|^param:\w+<.*extension_\.size\(\)$", False, "an extension axis that does not exist is refused")
    rejects(ctx, f, r"^(elem\(elem\(this\.\w+\)\.first\.extension_\)==elem\(this\.\w+\)|elem\(this\.\w+\)==elem\(elem\(this\.\w+\)\.first\.extension_\))$", False,
            "parts of different extent are refused", sanction=(r"==this\.\w+$|^this\.\w+==|==param:\w+$",), always=False)
    rejects(ctx, f, r"layout_\.countValues==.*layout_\.countValues$", False, "parts with fields of different size are refused", always=False)
    rejects(ctx, f, r"checkForEqualChunking\(|isEqualChunk", False, "parts of different chunking are refused")
    sh = [(sym.r(f, x[3][0]), sym.r(f, x[3][1]), f.loc(i)) for i, x in enumerate(f.n) if x[0] == "assign" and x[2] == "="]
    grids = {m for g in p.fns.values() if g.q == NS + "ChunkedDataViewImpl::chunks" for x in g.n if x[0] == "return" and x[3] for m in [sym.r(g, x[3][0])]}
    shapes = {m for g in p.fns.values() if g.q == NS + "ChunkedDataViewImpl::chunkShape" and not g.params for x in g.n if x[0] == "return" and x[3] for m in [sym.r(g, x[3][0])]}
    full = {m for g in p.fns.values() if g.q == NS + "ChunkedDataViewImpl::shape" for x in g.n if x[0] == "return" and x[3] for m in [sym.r(g, x[3][0])]}
    ctx.need(len(grids) == len(shapes) == len(full) == 1, "the view's accessors do not return members")
    G, C, V = grids.pop(), shapes.pop(), full.pop()
    got = [(v, l) for k, v, l in sh if k == f"elem({G})"]
    names = (f"elem({V})", f"elem({C})")
    ok = bool(got) and all(equal(v, lambda a, b: -(-a // b), names) for v, _ in got)
    ctx.ob("fill", f"{f.q}: there are as many chunks as are needed to cover an axis, and no more", ok, got[0][1] if got else f.loc(), str(got)[:200])
    n = [g for g in p.fns.values() if g.q == NS + "ChunkedDataViewImpl::countChunkValues"]
    ctx.need(len(n) == 1, "countChunkValues not found")
    product(ctx, n[0], rf"elem\({esc(C)}\)", "the buffer of a chunk holds the product of its shape")
    e = fn(ctx, NS + "checkForEqualChunking")
    refuses(ctx, e, r"extensions_\)==.*extensions_\)$", False, "parts with different chunks are told apart", exempt=r"extensible_\)?$", always=False)
    b = fn(ctx, NS + "ChunkedDataViewBuilder::build")
    P = r"this\.parts_"
    rejects(ctx, b, rf"^empty\({P}\)$", True, "a view without parts is refused")
    pathfacts(ctx, "reject", b, {"many": rf"^1<{P}\.size\(\)$", "axis": r"^this\.extensionAxisIndex_(\.has_value\(\))?$"}, "several parts need an extension axis",
              check=lambda out, facts: "several parts are put together without an extension axis" if facts.get("many") is True and facts.get("axis") is False or "many" not in facts else None, boolean=False, allow=same(b))
    rejects(ctx, b, rf"^this\.extensionAxisIndex_(\.value_or\(0\))?<.*elem\({P}\).*\.size\(\)$", False, "a part without the extension axis is refused", always=False)
    unconditional(ctx, b, rf"^this\.extensionAxisIndex_(\.value_or\(0\))?<.*elem\({P}\).*\.size\(\)$", "whether or not an extension axis was chosen")
    rejects(ctx, b, r"doPartsAlign\(", False, "parts of different shape are refused")
    c = fn(ctx, NS + "ViewPart::extensibleWith")
    refuses(ctx, c, r"^(this\.extension_\.size\(\)==param:\w+\.extension_\.size\(\)|param:\w+\.extension_\.size\(\)==this\.extension_\.size\(\))$", False, "parts with other axes are told apart")
    refuses(ctx, c, r"^(elem\(this\.extension_\)==elem\(param:\w+\.extension_\)|elem\(param:\w+\.extension_\)==elem\(this\.extension_\))$", False, "parts with other extents are told apart", exempt=r"==param:\w+$|^param:\w+==", always=False)
    c = fn(ctx, NS + "ChunkedDataViewBuilder::doPartsAlign")
    al = [(g, i) for g in below(p, c, same(c)) for i, inf in g.calls() if last(inf["q"]) == "extensibleWith"]
    ctx.ob("reject", f"{c.q}: every part is compared", bool(al) and all(whole(ctx, p, sym, g, i) is None for g, i in al), c.loc(), f"{len(al)} site(s)")
    for g, i in al:
        a = [sym.r(g, x) for x in g.args(i)]
        ctx.ob("reject", f"{c.q}: along the extension axis", len(a) == 2 and a[1] in ("this.extensionAxisIndex_.value_or(0)",), g.loc(i), str(a)[:200])
        acc = [x for x in (g.n[k] for k in g.ancestors(i)) if x[0] == "assign"]
        ok = bool(acc) and acc[0][2] in ("&=", "=") or any(g.n[k][0] in ("if", "return") for k in g.ancestors(i))
        if acc and acc[0][2] == "=":
            ok = "&&" in sym.r(g, acc[0][3][1]) or sym.r(g, acc[0][3][0]) in sym.r(g, acc[0][3][1])
        ctx.ob("reject", f"{c.q}: one part that does not align is enough", ok and not any(x[2] == "|=" for x in acc), g.loc(i), "")
    # chunks divide the axes
    m = fn(ctx, NS + "AxisMapper::mapAxisToChunks")

    def chk(out, facts):
        t = str(out)
        if "chunkSize" in t and facts.get("fits") is not True:
            return "a chunk size that was not checked is used"
        return None
    pathfacts(ctx, "reject", m, {"fits": r"chunkSizeCheck\("}, "a chunk size that does not divide the axis is refused", check=chk, boolean=False, allow=lambda g: False)
    s = fn(ctx, NS + "AxisMapper::chunkSizeCheck")
    rejects(ctx, s, r"^(0==param:\w+|param:\w+==0|0<param:\w+)$", True, "a chunk size of zero is refused") if any(re.search(r"^(0==param|param:\w+==0)", a) for _, _, a, _ in conds(p, sym, s)) else \
        rejects(ctx, s, r"^0<param:\w+$", False, "a chunk size of zero is refused")
    pathfacts(ctx, "reject", s, {"rest": r"^\(param:\w+%local:\w+\)==0$", "div": r"^\(.*size\(\)%.*\)==0$"}, "a chunk size is accepted only if it divides an axis",
              check=lambda out, facts: "accepted without dividing" if out is True and not (facts.get("rest") is True and facts.get("div") is True) else None, allow=same(s))
    q = fn(ctx, NS + "AxisMapper::mapRequestToAxis")
    rejects(ctx, q, r"^(0==local:\w+\.count\(elem\(elem\(|empty\(local)|local:\w+\.(contains|find)\(elem\(elem\(", False, "a keyword on two axes is refused", always=False)
    pathfacts(ctx, "reject", q, {"many": r"^1<elem\(.*\)\.count\(\)$", "mapped": r"local:\w+\.count\(elem\((?!elem)"}, "a keyword with several values needs an axis",
              check=lambda out, facts: "completes with a keyword that has several values and no axis" if facts.get("many") is True and facts.get("mapped") is not True else None, boolean=False, allow=same(q))


def unconditional(ctx, f, rx, what):
    p, sym = ctx.p, Sym(ctx.p)
    sites = [(g, i) for g, i, a, _ in conds(p, sym, f) if re.search(rx, a)]
    bad = None
    for g, i in sites:
        for a in g.ancestors(i):
            if g.n[a][0] == "if":
                bad = f"only under the condition at {g.loc(a)}"
    ctx.ob("reject", f"{f.q}: {what}", bool(sites) and bad is None, sites[0][0].loc(sites[0][1]) if sites else f.loc(), bad or "")


def refuses(ctx, f, rx, bad, what, exempt=None, always=True):
    """f does not return true when the condition has the value `bad` (unless exempt)"""
    p, sym = ctx.p, Sym(ctx.p)
    tr = {"t": rx}
    if exempt:
        tr["exempt"] = exempt
    seen = set()

    def check(out, facts):
        seen.add(facts.get("t"))
        if out is True and facts.get("t") is bad and facts.get("exempt") is not True:
            return "says yes although it differs"
        return None
    pathfacts(ctx, "reject", f, tr, what, check=check, allow=same(f), follow=same(f))
    ctx.ob("reject", f"{f.q}: {what}: is looked at", (not bad) in seen, f.loc(), "")
    for g, i, a, _ in conds(p, sym, f):
        if re.search(rx, a):
            why = whole(ctx, p, sym, g, i, (exempt,) if exempt else ())
            ctx.ob("reject", f"{f.q}: {what}: for every element", why is None, g.loc(i), why or "")


def product(ctx, f, rx, what):
    p, sym = ctx.p, Sym(ctx.p)
    ctx.functions.add(f.id)
    rets = [sym.r(f, x[3][0]) for x in f.n if x[0] == "return" and x[3]]
    bad = None
    if len(rets) == 1 and re.match(r"^local:\w+$", rets[0]):
        v = rets[0]
        mul = [(i, x) for i, x in enumerate(f.n) if x[0] == "assign" and sym.r(f, x[3][0]) == v]
        ini = [sym.r(f, x[3][0]) for x in f.n if x[0] == "var" and x[3] and x[2]["n"] == v.split(":")[1]]
        if ini not in (["1"], ["{1}"]):
            bad = f"starts at {ini}"
        elif len(mul) != 1 or not re.search(rx, sym.r(f, mul[0][1][3][1])) or mul[0][1][2] not in ("*=", "="):
            bad = f"{[sym.r(f, x[3][1]) for _, x in mul]}"
        elif mul[0][1][2] == "=" and not equal(sym.r(f, mul[0][1][3][1]), lambda a, b: a * b, (v, re.search(rx, sym.r(f, mul[0][1][3][1])).group())):
            bad = sym.r(f, mul[0][1][3][1])
        elif whole(ctx, p, sym, f, mul[0][0]):
            bad = whole(ctx, p, sym, f, mul[0][0])
        elif loop_of(f, mul[0][0]) is None:
            bad = "not in a loop"
    elif len(rets) != 1 or "std::accumulate(" not in rets[0] or not re.search(r"multiplies|lambda", rets[0]):
        bad = str(rets)[:200]
    ctx.ob("fill", f"{f.q}: {what}", bad is None, f.loc(), bad or rets[0])


def boxes(ctx):
    p, sym = ctx.p, Sym(ctx.p)
    B = NS + "BoundingBox::"
    e = fn(ctx, B + "entries")
    product(ctx, e, r"elem\((this\.extent\(\)|local:\w+)\)|\(\(elem\(this\.upper_\)-elem\(this\.lower_\)\)\+1\)", "a box has as many cells as the product of its extents")
    x = fn(ctx, B + "extent")
    v = [sym.r(x, x.args(i)[0]) for i, inf in x.calls() if last(inf["q"]) in ("push_back", "emplace_back")] + [sym.r(x, y[3][1]) for y in x.n if y[0] == "assign" and y[2] == "=" and sym.r(x, y[3][0]).startswith("elem(")]
    ctx.ob("cells", f"{x.q}: upper - lower + 1 on each axis", len(v) == 1 and equal(v[0], lambda u, l: u - l + 1, ("elem(this.upper_)", "elem(this.lower_)")), x.loc(), str(v))
    c = fn(ctx, B + "contains")
    o = c.params[0][0]
    for rx, w in ((rf"^elem\(this\.upper_\)<elem\(param:{o}\.upper_\)$", "a box that ends later is not contained"), (rf"^elem\(param:{o}\.lower_\)<elem\(this\.lower_\)$", "a box that starts earlier is not contained")):
        refuses(ctx, c, rx, True, w, always=False)
    c = fn(ctx, B + "subtract")
    o = c.params[0][0]
    rejects(ctx, c, rf"^elem\(this\.lower_\)<elem\(param:{o}\)$", True, "an underflow is refused", always=False, rule="cells")
    vals = {sym.r(c, c.obj(i)): sym.r(c, c.args(i)[0]) for i, inf in c.calls() if last(inf["q"]) in ("push_back", "emplace_back")}
    for y in c.n:
        if y[0] == "assign" and y[2] == "=" and sym.r(c, y[3][0]).startswith("elem(local:"):
            vals[sym.r(c, y[3][0])[5:-1]] = sym.r(c, y[3][1])
    ret = [[sym.r(c, a) for a in c.args(i)] for i, y in enumerate(c.n) if y[0] == "new" and y[2]["q"].endswith("BoundingBox::<ctor>") and len(c.args(i)) == 2]
    ok = len(ret) == 1 and all(t in vals and equal(vals[t], lambda a, b: a - b, (f"elem(this.{m})", f"elem(param:{o})")) for t, m in zip(ret[0], ("lower_", "upper_")))
    ctx.ob("cells", f"{c.q}: both corners are moved", ok, c.loc(), str(vals)[:200])
    c = fn(ctx, B + "intersect")
    o = c.params[0][0]
    sep = {"a": rf"^elem\(this\.upper_\)<elem\(param:{o}\.lower_\)$", "b": rf"^elem\(param:{o}\.upper_\)<elem\(this\.lower_\)$"}
    pathfacts(ctx, "cells", c, sep, "boxes do not meet exactly if they are apart on some axis", boolean=False, allow=same(c),
              check=lambda out, facts: "says that boxes do not meet although they are not apart" if "nullopt" in str(out) and not (facts.get("a") or facts.get("b")) else
              "goes on although the boxes are apart" if "nullopt" not in str(out) and (facts.get("a") or facts.get("b")) else None)
    vals = {sym.r(c, c.obj(i)): sym.r(c, c.args(i)[0]) for i, inf in c.calls() if last(inf["q"]) in ("push_back", "emplace_back")}
    ret = [[sym.r(c, a) for a in c.args(i)] for i, y in enumerate(c.n) if y[0] == "new" and y[2]["q"].endswith("BoundingBox::<ctor>") and len(c.args(i)) == 2]
    ok = len(ret) == 1 and all(t in vals and equal(vals[t], w, (f"elem(this.{m})", f"elem(param:{o}.{m})")) for t, m, w in zip(ret[0], ("lower_", "upper_"), (lambda a, b: max(a, b), lambda a, b: min(a, b))))
    ctx.ob("cells", f"{c.q}: the larger of the starts, the smaller of the ends", ok, c.loc(), str(vals)[:200])


def index(sym, f, i):
    """the text of the position an element access uses"""
    k = f.n[i]
    while k[0] == "cast" and k[3]:
        i = k[3][0]
        k = f.n[i]
    if k[0] == "call" and last(k[2]["q"]) in ("operator[]", "at"):
        return sym.r(f, f.args(i)[0])
    return last(k[2]["q"]) if k[0] == "call" else ""


def tiles(ctx):
    """the boxes of the parts cover the view without a gap"""
    p, sym = ctx.p, Sym(ctx.p)
    f = [g for g in p.fns.values() if g.kind == "ctor" and g.cls == NS + "ViewPart" and len(g.params) == 4]
    ctx.need(len(f) == 1, "constructor of ViewPart not found")
    f = f[0]
    ctx.functions.add(f.id)
    ext, one = "elem(this.extension_)", []
    for i, x in enumerate(f.n):
        if x[0] == "assign" and x[2] in ("=", "+=") and re.match(r"^elem\((this\.offset_|param:\w+|local:\w+)\)$", sym.r(f, x[3][0])):
            b = sym.r(f, x[3][0])
            v = sym.r(f, x[3][1])
            o = [t for t in ("elem(this.offset_)", b) if t in v] or [b]
            ok = equal(v, lambda e: e - 1, (ext,)) if x[2] == "+=" else any(equal(v, lambda e, q: q + e - 1, (ext, t)) for t in o)
            one.append((ok and whole(ctx, p, sym, f, i) is None, f.loc(i), f"{b} {x[2]} {v}"))
    for i, inf in f.calls():
        if last(inf["q"]) in ("push_back", "emplace_back"):
            o, v = sym.r(f, f.obj(i)), sym.r(f, f.args(i)[0])
            if o.startswith("local:"):
                one.append((any(equal(v, lambda e, q: q + e - 1, (ext, t)) for t in ("elem(this.offset_)", "elem(param:offset)")) and whole(ctx, p, sym, f, i) is None, f.loc(i), f"{o} {v}"))
            if o == "this.extension_":
                ctx.ob("tiles", f"{f.q}: the extent of a part is the size of its axis", re.match(r"^elem\(param:\w+\)\.(first|0)\.size_$", v) is not None and whole(ctx, p, sym, f, i) is None, f.loc(i), v)
    ctx.ob("tiles", f"{f.q}: the box of a part ends its extent after its offset", len(one) == 1 and one[0][0], one[0][1] if one else f.loc(), str(one)[:200])
    f = [g for g in p.fns.values() if g.kind == "ctor" and g.cls == NS + "ChunkedDataViewImpl" and len(g.params) == 3][0]
    A = ("this.extensionAxisIndex_", f"param:{f.params[2][0]}")
    E = r"elem\(elem\(this\.\w+\)\.(first|0)\.extension_\)"
    tot = [(i, x) for i, x in enumerate(f.n) if x[0] == "assign" and x[2] == "+=" and re.match("^" + E + "$", sym.r(f, x[3][1]))]
    ok, why = len(tot) == 1, f"{len(tot)} sum(s)"
    if ok:
        i, x = tot[0]
        acc = sym.r(f, x[3][0])
        ini = [sym.r(f, y[3][0]) for y in f.n if y[0] == "var" and y[3] and acc == "local:" + y[2]["n"]]
        put = [(k, y) for k, y in enumerate(f.n) if y[0] == "assign" and y[2] == "=" and sym.r(f, y[3][1]) == acc and index(sym, f, y[3][0]) in A]
        w = whole(ctx, p, sym, f, i, (r"this\.extensionAxisIndex_|" + esc(A[1]),))
        pos = index(sym, f, x[3][1])
        if ini not in (["0"], ["{0}"], ["{}"]):
            ok, why = False, f"starts at {ini}"
        elif len(put) != 1 or loop_of(f, put[0][0]) is not None:
            ok, why = False, "is not the extent along the extension axis"
        elif w:
            ok, why = False, w
        elif pos not in A:
            c = [a for k in f.ancestors(i) if f.n[k][0] == "if" and i not in set(f.walk(f.n[k][3][0])) for a in atoms(sym.formula(f, f.n[k][3][0], None, i in set(f.walk(f.n[k][3][1]))))]
            if not any(pol and a in (f"{pos}=={t}", f"{t}=={pos}") for a, pol in c for t in A):
                ok, why = False, f"sums extents of {pos} under {c}"
    ctx.ob("tiles", f"{f.q}: the view is as long as its parts together", ok, f.loc(tot[0][0]) if tot else f.loc(), why)
    b = fn(ctx, NS + "ChunkedDataViewBuilder::build")
    X = ("this.extensionAxisIndex_.value_or(0)",)
    off = [(i, x) for i, x in enumerate(b.n) if x[0] == "assign" and x[2] == "=" and index(sym, b, x[3][0]) in X]
    ok, why = len(off) == 1, f"{len(off)} offset(s) along the extension axis"
    if ok:
        i, x = off[0]
        vec, val = sym.r(b, x[3][0])[5:-1], sym.r(b, x[3][1])
        m = re.match(r"^elem\((local:\w+)\)$|^(local:\w+)\.back\(\)$|^(local:\w+)$", val)
        acc = m and next(t for t in m.groups() if t)
        if not m:
            ok, why = False, f"offset {val}"
        elif val.startswith("elem(") and index(sym, b, x[3][1]) not in (f"({acc}.size()-1)", "back"):
            ok, why = False, f"offset of {index(sym, b, x[3][1])}"
        else:
            e = r"elem\(local:\w+\.extension_\)"
            grow = [(k, sym.r(b, b.args(k)[0]), b.args(k)[0]) for k, inf in b.calls() if last(inf["q"]) in ("push_back", "emplace_back") and sym.r(b, b.obj(k)) == acc]
            add = [(k, sym.r(b, y[3][1]), y[3][1]) for k, y in enumerate(b.n) if y[0] == "assign" and sym.r(b, y[3][0]) == acc]
            ini = [sym.r(b, y[3][0]) for y in b.n if y[0] == "var" and y[3] and acc == "local:" + y[2]["n"]]
            t = grow + add
            if len(t) != 1:
                ok, why = False, f"{len(t)} change(s) of {acc}"
            else:
                g = re.search(e, t[0][1])
                where = [index(sym, b, j) for j in b.walk(t[0][2]) if b.n[j][0] == "call" and last(b.n[j][2]["q"]) in ("operator[]", "at") and g and sym.r(b, j) == g.group()]
                prev = next((q for q in (f"{acc}.back()", f"elem({acc})", acc) if q in t[0][1]), "?")
                if not g or not all(w in X for w in where):
                    ok, why = False, f"grows by {t[0][1]} at {where}"
                elif grow and not equal(t[0][1], lambda u, v: u + v, (prev, g.group())):
                    ok, why = False, t[0][1]
                elif add and not (b.n[add[0][0]][2] == "+=" and t[0][1] == g.group() or equal(t[0][1], lambda u, v: u + v, (prev, g.group()))):
                    ok, why = False, t[0][1]
                elif len(ini) != 1 or re.sub(r".*\(\{0\},.*", "0", ini[0]) not in ("0", "{0}"):
                    ok, why = False, f"starts at {ini}"
                elif loop_of(b, t[0][0]) is None or loop_of(b, t[0][0]) != loop_of(b, i):
                    ok, why = False, "not once for each part"
                else:
                    why = whole(ctx, p, sym, b, t[0][0]) or whole(ctx, p, sym, b, i)
                    ok = why is None
        vs = [y for y in b.n if y[0] == "var" and vec == "local:" + y[2]["n"]]
        ctx.ob("tiles", f"{b.q}: the offset of a part is its own", len(vs) == 1 and loop_of(b, b.n.index(vs[0])) == loop_of(b, i), b.loc(i), "")
        new = [[sym.r(b, a) for a in b.args(k)] for k, y in enumerate(b.n) if y[0] == "new" and y[2]["q"] == NS + "ViewPart::<ctor>" and len(b.args(k)) == 4]
        ctx.ob("tiles", f"{b.q}: and is given to it", len(new) == 1 and (new[0][3] == vec), b.loc(i), str([n[3] for n in new])[:200])
    ctx.ob("tiles", f"{b.q}: a part starts where the one before it ends", ok, b.loc(off[0][0]) if off else b.loc(), why or "")


def extract(ctx):
    p, sym = ctx.p, Sym(ctx.p)
    f = fn(ctx, NS + "GribExtractor::writeInto")
    its, cx, ptr, ln = (a[0] for a in f.params)
    W = CallPred(r"Message::getFloatArray$")
    N = CallPred(r"Reader::next$")
    SIZE = r"getSize\(.*\)==param:%s\.layout\.countValues$|param:%s\.layout\.countValues==.*getSize\(" % (cx, cx)
    FIT = rf"^param:{ln}<"
    NEW = r"\.insert\(.*\)\.second$|\.emplace\(.*\)\.second$|std::get\(local:\w+\.(insert|emplace)\("
    for rx, good, w in ((SIZE, True, "of the size of the view's fields"), (FIT, False, "that ends within the buffer"), (NEW, True, "that was not filled before")):
        pathfacts(ctx, "cells", f, {"t": rx}, f"a message is placed only in a cell {w}" if rx is not SIZE else f"a message is placed only if it is {w}",
                  at=[(W, lambda facts, fr, i, good=good: None if facts.get("t") is good else "not known to be so")], kills=[([N], ["t"])] if rx is not FIT else [], need_hits=True, boolean=False, allow=same(f), follow=same(f))
    sites = [(g, i) for g in below(p, f, same(f)) for i, inf in g.calls() if W.quick(inf)]
    for g, i in sites:
        a = [sym.r(g, x) for x in g.args(i)]
        if g is not f:
            continue
        m = re.search(r"chunked_data_view::index_mapping::computeBufferIndex\((.*)\)\*", a[1])
        cell = f"chunked_data_view::index_mapping::computeBufferIndex({m.group(1)})" if m else "?"
        ok = bool(m) and equal(a[1], lambda b, c, s: b + c * s, (f"param:{ptr}", cell, f"param:{cx}.layout.countValues"))
        ctx.ob("cells", f"{f.q}: a message is placed at its own cell", ok, g.loc(i), a[1][:250])
        ctx.ob("cells", f"{f.q}: and fills it", len(a) == 3 and a[2] == f"param:{cx}.layout.countValues", g.loc(i), a[2][:100] if len(a) > 2 else "")
        if m:
            want = [f"param:{cx}.axes", None, f"param:{cx}.partAxisOffset", f"param:{cx}.bufferOffset", f"param:{cx}.bufferExtent"]
            got = [[sym.r(f, x) for x in f.args(k)] for k, inf in f.calls() if last(inf["q"]) == "computeBufferIndex"]
            ok = bool(got) and all(len(t) == 5 and all(w is None or w == v for w, v in zip(want, t)) and f"param:{its}.next()" in t[1] for t in got)
            ctx.ob("cells", f"{f.q}: the cell is that of the field's key", ok, g.loc(i), str(got)[:250])
    # what is remembered as filled is the cell
    for g in below(p, f, same(f)):
        for i, inf in g.calls():
            if last(inf["q"]) in ("insert", "emplace") and re.search(r"set::", inf["q"]) and g.args(i):
                t = sym.r(g, g.args(i)[0])
                ctx.ob("cells", f"{f.q}: what is remembered is the cell", "computeBufferIndex(" in t or g is not f, g.loc(i), t[:160])
                o = g.obj(i)
                if o is not None and g.n[o][0] == "ref":
                    d = g.n[o][2][2]
                    v = [j for j, x in enumerate(g.n) if x[0] == "var" and x[2]["d"] == d]
                    ctx.ob("cells", f"{f.q}: for all of the request", not v or loop_of(g, v[0]) is None, g.loc(v[0]) if v else g.loc(i), "")
    # the bound is that of the cell's end
    ends = [a for _, _, a, _ in conds(p, sym, f) if re.search(FIT, a)]
    ok = False
    for a in ends:
        rhs = a.split("<", 1)[1]
        m = re.search(r"chunked_data_view::index_mapping::computeBufferIndex\(.*?\)\)?(?=\*)", rhs)
        m = re.search(r"chunked_data_view::index_mapping::computeBufferIndex\((?:[^()]|\((?:[^()]|\([^()]*\))*\))*\)", rhs)
        if m and equal(rhs, lambda b, c, s: (c + 1) * s, (f"param:{ptr}", m.group(), f"param:{cx}.layout.countValues")):
            ok = True
    ctx.ob("cells", f"{f.q}: the end of the cell is compared with the length of the buffer", ok, f.loc(), str(ends)[:250])
    # counting
    rets = [sym.r(f, x[3][0]) for x in f.n if x[0] == "return" and x[3]]
    ctx.ob("fill", f"{f.q}: what is returned is a count", len(set(rets)) == 1 and re.match(r"^local:\w+(\.size\(\))?$", rets[0]) is not None, f.loc(), str(rets))
    if rets and re.match(r"^local:\w+$", rets[0]):
        inc = AssignPred("^" + esc(rets[0]) + "$", ops=("++", "p++", "+="))
        lost = lambda facts: "placed without having been counted" if facts.get("w") and not facts.get("counted") else None
        pathfacts(ctx, "fill", f, {}, "a message that was placed is counted", events={"w": [W]}, aevents={"counted": [inc]}, kills=[([N], ["w", "counted"])],
                  at=[(N, lambda facts, fr, i: lost(facts))], check=lambda out, facts: lost(facts), need_hits=True, boolean=False, allow=same(f), follow=same(f))
        chg = [(i, x) for i, x in enumerate(f.n) if x[0] in ("assign", "un") and x[3] and sym.r(f, x[3][0]) == rets[0]]
        ok = len(chg) == 1 and (chg[0][1][2] in ("++", "p++") or chg[0][1][2] == "+=" and sym.r(f, chg[0][1][3][1]) == "1")
        ctx.ob("fill", f"{f.q}: once", ok, f.loc(chg[0][0]) if chg else f.loc(), f"{len(chg)} change(s)")
        pathfacts(ctx, "fill", f, {}, "only a message that was placed is counted", events={"w": [W]}, kills=[([N], ["w"])],
                  at=[(inc, lambda facts, fr, i: None if facts.get("w") else "counted without having been placed")], need_hits=True, boolean=False, allow=same(f), follow=same(f))
        ini = [sym.r(f, x[3][0]) for x in f.n if x[0] == "var" and x[3] and x[2]["n"] == rets[0].split(":")[1]]
        ctx.ob("fill", f"{f.q}: from zero", ini in (["0"], ["{0}"], ["{}"]), f.loc(), str(ini))
    pathfacts(ctx, "fill", f, {"more": rf"param:{its}\.next\(\)(\.has_value\(\))?$"}, "the iterator is read to its end", boolean=False, allow=same(f), kills=[([CallPred(r"ListIteratorInterface::next$")], ["more"])],
              check=lambda out, facts: None if facts.get("more") is False else "returns although there may be more")
    x = fn(ctx, NS + "GribExtractor::extractInto")
    pr = [a[0] for a in x.params]
    PB, IB, CB = f"param:{pr[0]}.bb_", f"param:{pr[2]}", f"param:{pr[1]}"
    rel, buf = f"{IB}.subtract({PB}.lower_)", f"{IB}.subtract({CB}.lower_)"
    for box, w in ((CB, "the chunk"), (PB, "the part")):
        rejects(ctx, x, rf"^{esc(box)}\.contains\({esc(IB)}\)$", False, f"an intersection outside {w} is refused")
    for i, inf in x.calls():
        if last(inf["q"]) == "writeInto":
            a = [sym.r(x, k) for k in x.args(i)]
            ctx.ob("cells", f"{x.q}: asks for the fields of the intersection", a[0] == f"this.fdb_.inspect(param:{pr[0]}.at({rel}))", x.loc(i), a[0][:250])
            want = ["{" + ",".join([f"param:{pr[0]}.axes_", f"param:{pr[0]}.layout_", f"{rel}.lower_", f"{buf}.lower_", e]) + "}" for e in (f"{CB}.extent()",)]
            ctx.ob("cells", f"{x.q}: places them relative to the part and the chunk", a[1] in want, x.loc(i), a[1][:400])
            ctx.ob("cells", f"{x.q}: in the caller's buffer", a[2:] == [f"param:{pr[3]}", f"param:{pr[4]}"], x.loc(i), str(a[2:]))
    r = [sym.r(x, y[3][0]) for y in x.n if y[0] == "return" and y[3]]
    ctx.ob("fill", f"{x.q}: returns what was written", bool(r) and all(t.startswith("this.writeInto(") and t.endswith(")") for t in r), x.loc(), str(r)[:160])
    for g in below(p, x, own) + below(p, f, own) + below(p, fn(ctx, NS + "ChunkedDataViewImpl::at"), own):
        for i, y in enumerate(g.n):
            if y[0] == "catch":
                sub = list(g.walk(i))
                ctx.ob("fill", f"{g.q}: a failure is passed on", any(g.n[j][0] == "throw" for j in sub) and not any(g.n[j][0] in ("return", "continue", "break") for j in sub), g.loc(i), "")


def cells(ctx):
    p, sym = ctx.p, Sym(ctx.p)
    f = fn(ctx, NS + "index_mapping::computeBufferIndex")
    ax, key, po, bo, be = (a[0] for a in f.params)
    IDX = f"elem(param:{ax}).index(param:{key})"
    rejects(ctx, f, rf"^{esc(IDX)}<elem\(param:{po}\)$", True, "a field before the intersection is refused", always=False, rule="cells")
    push = [sym.r(f, f.args(i)[0]) for i, inf in f.calls() if last(inf["q"]) in ("push_back", "emplace_back")] + [sym.r(f, x[3][1]) for x in f.n if x[0] == "assign" and x[2] == "=" and re.match(r"^elem\(local:", sym.r(f, x[3][0]))]
    ctx.ob("cells", f"{f.q}: positions are relative to the intersection", len(push) == 1 and equal(push[0], lambda i, o: i - o, (IDX, f"elem(param:{po})")), f.loc(), str(push))
    POS = rf"(elem\(local:\w+\)|\({esc(IDX)}-elem\(param:{po}\)\))"
    rejects(ctx, f, rf"^\({POS}\+elem\(param:{bo}\)\)<elem\(param:{be}\)$|^\(elem\(param:{bo}\)\+{POS}\)<elem\(param:{be}\)$", False, "a field after the chunk is refused", always=False, rule="cells")
    ret = [sym.r(f, x[3][0]) for x in f.n if x[0] == "return" and x[3]]
    add = [(i, x) for i, x in enumerate(f.n) if x[0] == "assign" and x[2] in ("+=", "=") and ret and sym.r(f, x[3][0]) == ret[0]]
    bad = None
    if len(add) != 1 or add[0][1][2] != "+=":
        bad = f"{len(add)} change(s)"
    else:
        t = sym.r(f, add[0][1][3][1])
        m = re.search(r"local:(?!indices)\w+(?=\)?$)|^\(?(local:\w+)\*", t)
        prods = {sym.r(f, x[3][0]) for x in f.n if x[0] == "assign" and x[2] == "*="}
        el = re.search(POS, t)
        q = [v for v in prods if v in t]
        if not el or len(q) != 1 or not equal(t, lambda a, b, c: (a + b) * c, (el.group(), f"elem(param:{bo})", q[0])):
            bad = t
        else:
            mul = [sym.r(f, x[3][1]) for x in f.n if x[0] == "assign" and x[2] == "*=" and sym.r(f, x[3][0]) == q[0]]
            ini = [sym.r(f, x[3][0]) for x in f.n if x[0] == "var" and x[3] and x[2]["n"] == q[0].split(":")[1]]
            if mul != [f"elem(param:{be})"] or ini not in (["1"], ["{1}"]):
                bad = f"strides {mul} from {ini}"
            why = whole(ctx, p, sym, f, add[0][0])
            bad = bad or why
            kk = next(i for i, x in enumerate(f.n) if x[0] == "assign" and x[2] == "*=" and sym.r(f, x[3][0]) == q[0])
            if not bad and (loop_of(f, kk) != loop_of(f, add[0][0]) or kk < add[0][0] and f.n[kk][1] < f.n[add[0][0]][1]):
                bad = "the stride of an axis includes its own extent"
    ctx.ob("cells", f"{f.q}: a cell of its own for each combination of positions", bad is None, f.loc(add[0][0]) if add else f.loc(), bad or "")
    a = fn(ctx, NS + "Axis::index")
    rejects(ctx, a, r"^end\(.*_internal\)\)==std::find\(|^std::find\(.*==end\(", True, "a value that is not on the axis is refused", always=False, rule="cells")
    ret = [sym.r(a, x[3][0]) for x in a.n if x[0] == "return" and x[3]]
    add = [(i, sym.r(a, x[3][1])) for i, x in enumerate(a.n) if x[0] == "assign" and x[2] == "+=" and ret and sym.r(a, x[3][0]) == ret[0]]
    prods = [(i, sym.r(a, x[3][0]), sym.r(a, x[3][1])) for i, x in enumerate(a.n) if x[0] == "assign" and x[2] == "*="]
    bad = None
    if len(add) != 1 or len(prods) != 1:
        bad = f"{add} {prods}"
    else:
        t = add[0][1]
        if not re.match(r"^\(?\(?std::distance\(iter\(.*\)\*" + esc(prods[0][1]) + r"\)?$|^\(?" + esc(prods[0][1]) + r"\*std::distance\(iter\(|^\(\(std::find\(.*-iter\(.*\*" + esc(prods[0][1]), t):
            bad = t[-120:]
        elif not re.search(r"_internal\)\.size\(\)$", prods[0][2]):
            bad = f"strides of {prods[0][2]}"
        elif prods[0][0] < add[0][0] and a.n[prods[0][0]][1] < a.n[add[0][0]][1]:
            bad = "the stride of a parameter includes its own values"
        else:
            bad = whole(ctx, p, sym, a, add[0][0])
    ctx.ob("cells", f"{a.q}: a position of its own for each combination of values", bad is None, a.loc(), bad or "")
    u = fn(ctx, NS + "RequestManipulation::updateRequest")
    ps = [x[0] for x in u.params]
    rejects(ctx, u, rf"^\(\(param:{ps[3]}-param:{ps[2]}\)\+1\)<local:\w+$|^param:{ps[3]}-param:{ps[2]}\+1<", True, "a request for more than the intersection is refused")
    rejects(ctx, u, rf"^param:{ps[3]}<param:{ps[1]}\.(size_|size\(\))$", False, "an index past the axis is refused")
    t = fn(ctx, NS + "index_mapping::to_axis_parameter_index")
    ps = [x[0] for x in t.params]
    rejects(ctx, t, rf"^param:{ps[0]}<param:{ps[1]}\.(size_|size\(\))$", False, "an index past the axis is refused")
    v = fn(ctx, NS + "ViewPart::at")
    rejects(ctx, v, r"\.contains\(param:\w+\)$", False, "a box outside the part is refused")


def binding(ctx):
    p, sym = ctx.p, Sym(ctx.p)
    fs = [f for f in p.fns.values() if f.file == "chunked_data_view_bindings/bindings.cc" and any(last(inf["q"]) == "at" and "ChunkedDataView" in inf["q"] for _, inf in f.calls())]
    ctx.need(fs, "the binding of ChunkedDataView::at was not found")
    for f in fs:
        ctx.functions.add(f.id)
        for i, inf in f.calls():
            if last(inf["q"]) != "at" or "ChunkedDataView" not in inf["q"]:
                continue
            a = [sym.r(f, x) for x in f.args(i)]
            v = sym.r(f, f.obj(i))
            m = re.match(r"^local:(\w+)\.mutable_data\(\)$", a[1])
            ok = bool(m) and a[2] == f"{v}.countChunkValues()"
            ctx.ob("python", "at: the view fills an array and is told its length", ok, f.loc(i), str(a)[:200])
            if m:
                sz = [[sym.r(f, y) for y in f.args(j)] for x in f.n if x[0] == "var" and x[2]["n"] == m.group(1) and x[3] for j in f.walk(x[3][0]) if f.n[j][0] == "new"]
                sz = [s for s in sz if s]
                ctx.ob("python", "at: the array holds as many values", bool(sz) and sz[0][0] == a[2], f.loc(i), str(sz)[:200])
                r = [sym.r(f, x[3][0]) for x in f.n if x[0] == "return" and x[3]]
                ctx.ob("python", "at: and is what is returned", r == [f"local:{m.group(1)}"], f.loc(i), str(r))


def python(ctx):
    f = "src/z3fdb/_internal/zarr.py"
    m = Mod(f)
    ms = m.methods("FdbSource")
    d = ms["__init__"]
    prm = [a.arg for a in d.args.args][1]
    view = [e[1] for q in Flow(m, "FdbSource").run(d) for e in q.events if e[0] == "assign" and e[2] == prm]
    ctx.need(view, "FdbSource does not keep its view")
    vals = {e[1]: e[2].replace(view[0] + ".", prm + ".") for q in Flow(m, "FdbSource").run(d) for e in q.events if e[0] == "assign"}
    by = {v: k for k, v in vals.items()}
    for acc in ("shape", "chunkShape", "chunks", "fill_missing_value"):
        ctx.ob("python", f"FdbSource: knows the view's {acc}", f"{prm}.{acc}()" in by, f"{f}:{d.lineno}", str(vals)[:200])
    SH, CH = by.get(f"{prm}.shape()", "?"), by.get(f"{prm}.chunks()", "?")

    NEG = {"<": ">=", ">=": "<", ">": "<=", "<=": ">", "==": "!=", "!=": "==", "in": "not in", "not in": "in"}
    SWAP = {"<": ">", ">": "<", "<=": ">=", ">=": "<=", "==": "==", "!=": "!="}
    OPS = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!=", ast.In: "in", ast.NotIn: "not in"}

    def known(x, pol):
        """the comparisons that hold if the expression has this truth value; those of every element as ("each", comparison)"""
        if isinstance(x, ast.UnaryOp) and isinstance(x.op, ast.Not):
            return known(x.operand, not pol)
        if isinstance(x, ast.BoolOp):
            if isinstance(x.op, ast.And) == pol:
                return set().union(*(known(v, pol) for v in x.values))
            return set()
        if isinstance(x, ast.Compare):
            ts = [pyflow.s(v) for v in (x.left, *x.comparators)]
            ops = [OPS.get(type(o), "?") for o in x.ops]
            if len(ops) > 1 and not pol:
                return set()
            out = set()
            for l, o, r in zip(ts, ops, ts[1:]):
                o = o if pol else NEG.get(o, "?")
                out |= {(l, o, r)} | ({(r, SWAP[o], l)} if o in SWAP else set())
            return out
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("any", "all") and x.args:
            y = x.args[0]
            if pol == (x.func.id == "all") and isinstance(y, ast.Call) and isinstance(y.func, ast.Name) and y.func.id == "listof":
                return {("each", z) for z in known(y.args[0], pol)}
        return set()

    def facts(q, key, result=None):
        """(the key has as many dimensions as the view, each of them is within bounds) on a path"""
        lits, inl = set(), None
        Z = f"zip({key}, {CH})"
        for e in q.events:
            if e[0] == "loop" and e[1] == Z:
                inl = set()
            elif e[0] == "zero" and e[1] == Z:
                lits |= {("each", (f"elem({Z})[0]", ">=", "0")), ("each", (f"elem({Z})[0]", "<", f"elem({Z})[1]"))}
            elif e[0] == "endloop" and e[1] == Z and inl is not None:
                lits |= {("each", z) for z in inl}
                inl = None
            elif e[0] == "break":
                inl = None
            elif e[0] == "cond":
                k = known(ast.parse(e[1], mode="eval").body, e[2])
                lits |= k
                if inl is not None:
                    inl |= k
        if result is not None:
            lits |= known(result, True)
        if (key, "in", "self") in lits:
            return True, True
        dim = any(l == (f"len({key})", "==", f"len({t})") for l in lits for t in (SH, CH))
        inside = all(("each", (f"elem({Z})[0]", o, t)) in lits for o, t in ((">=", "0"), ("<", f"elem({Z})[1]")))
        return dim, inside
    for name in ("__getitem__", "__contains__"):
        d = ms[name]
        key = [a.arg for a in d.args.args][1]
        bad, n = None, 0
        for q in Flow(m, "FdbSource").run(d):
            dim, inside = facts(q, key, None if q.out is None or q.out[0] == "raise" or name == "__getitem__" else q.out[1])
            if q.out is None or q.out[0] == "raise":
                if name == "__getitem__" and (q.out is None or "KeyError" not in q.out[1]):
                    bad = f"ends with {q.out}"
                continue
            r = pyflow.s(q.out[1])
            if name == "__contains__":
                if r != "False" and not (dim is True and inside is True):
                    bad = "says that a chunk outside the view exists"
                n += 1
                continue
            n += 1
            if not (dim is True and inside is True):
                bad = "serves a chunk that may be outside the view"
            if r not in (f"CpuBuffer.from_bytes({view[0]}.at({key}))", f"CpuBuffer.from_bytes({view[0]}.at(list({key})))", f"CpuBuffer.from_bytes({view[0]}.at(tuple({key})))"):
                bad = f"returns {r}"
        ctx.ob("python", f"FdbSource.{name}: only chunks of the view", bad is None and n > 0, f"{f}:{d.lineno}", bad or f"{n} path(s)")
    ms = m.methods("FdbZarrStore")
    for name in ("__setitem__", "__delitem__", "set", "set_if_not_exists", "delete", "set_partial_values"):
        d = ms.get(name)
        ok = d is not None and all(q.out and q.out[0] == "raise" for q in Flow(m, "FdbZarrStore").run(d))
        ctx.ob("python", f"FdbZarrStore.{name}: refused", ok, f"{f}:{d.lineno if d else 1}", "")
    for name in ("supports_writes", "supports_deletes", "supports_partial_writes"):
        d = ms.get(name)
        ok = d is not None and all(q.out and q.out[0] == "return" and pyflow.s(q.out[1]) == "False" for q in Flow(m, "FdbZarrStore").run(d))
        ctx.ob("python", f"FdbZarrStore.{name}: no", ok, f"{f}:{d.lineno if d else 1}", "")
    for cls, node in m.classes.items():
        for nm, d in m.methods(cls).items():
            for t in ast.walk(d):
                if isinstance(t, ast.ExceptHandler):
                    ok = any(isinstance(x, ast.Raise) for x in ast.walk(t))
                    ctx.ob("python", f"{cls}.{nm}: a failure is not turned into a missing chunk", ok, f"{f}:{t.lineno}", "")
    b = "src/z3fdb/simple_store_builder.py"
    mb = Mod(b)
    for nm, meth, n in (("add_part", "add_part", 3), ("extend_on_axis", "extend_on_axis", 1), ("fill_missing_value", "fill_missing_value", 1)):
        d = mb.methods("SimpleStoreBuilder").get(nm)
        if d is None:
            ctx.ob("python", f"SimpleStoreBuilder.{nm}: exists", False, f"{b}:1", "")
            continue
        ps = [a.arg for a in d.args.args][1:]
        bad, k = None, 0
        for q in Flow(mb, "SimpleStoreBuilder").run(d):
            if q.out and q.out[0] == "raise":
                continue
            k += 1
            c = [e for e in q.events if e[0] == "call" and e[1].startswith("self._") and e[1].endswith("." + meth)]
            if len(c) != 1 or list(c[0][2]) + [v for _, v in c[0][3]] != ps:
                bad = f"{[x[1:4] for x in c]} for {ps}"
        ctx.ob("python", f"SimpleStoreBuilder.{nm}: hands its arguments on", bad is None and k > 0, f"{b}:{d.lineno}", bad or "")


def run(ctx):
    at(ctx)
    build(ctx)
    boxes(ctx)
    tiles(ctx)
    extract(ctx)
    cells(ctx)
    binding(ctx)
    python(ctx)
