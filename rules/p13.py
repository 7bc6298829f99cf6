"""Writers and readers of every serialisable type are compared as sets of item sequences extracted from their control-flow graphs
(loops taken at most once per entry, format versions specialised): each sequence that is written is a sequence that is read and
vice versa, item by item with the same wire type, related classes and the same member; the loops of the reader are bounded by
exactly the count that was read, and no item of a written loop is skipped."""
import re

from vt.lib import order_calls
from vt.prog import Env, Sym
from vt.wire import Wire, bare

TECHNIQUE = "grammar extraction from the control-flow graph of writers and readers, set comparison of item sequences, member correspondence"
ASSUMPTIONS = ["eckit and metkit serialise their own types (URI, Length, Offset, Endpoint, MarsRequest, containers) symmetrically",
               "loops of a writer and of its reader process every iteration alike (each is compared for zero and one iteration)"]
FLOORS = {"write-read": 10, "members": 10, "loop-bounds": 10, "types-reanimable": 5}
VERSIONS = ("1", "2", "3")


def show(w):
    return " ".join(("{" + ",".join(sorted(i.val)) + "}") if i.label == "OBJ" else repr(i) for i in w) or "(nothing)"


def labels(w):
    return tuple(i.label for i in w)


def related(p, a, b):
    if not a or not b or a == b or a not in p.classes or b not in p.classes:
        return True
    return a in p.superclasses(b) or b in p.superclasses(a)


def clash(p, a, b):
    """why two aligned items do not correspond, or None"""
    if not related(p, a.cls, b.cls):
        return f"{a.cls} is written where {b.cls} is read"
    if a.role and b.role:
        if a.role[1] and b.role[1] and a.role[1] != b.role[1]:
            return f"{a.role[1]} is written but read into {b.role[1]}"
        if {a.role[0], b.role[0]} == {"first", "second"}:
            return f"key and value of {b.role[1]} are exchanged"
    return None


def wclash(p, we, wd):
    for a, b in zip(we, wd):
        if a.label == "OBJ":
            for t in a.val:
                if t in b.val:
                    for x in a.val[t]:
                        for y in b.val[t]:
                            if labels(x) == labels(y):
                                c = wclash(p, x, y)
                                if c:
                                    return c
            continue
        c = clash(p, a, b)
        if c:
            return c
    return None


def objdiff(we, wd):
    """difference between tagged objects of two words with equal labels"""
    for a, b in zip(we, wd):
        if a.label != "OBJ":
            continue
        for t in sorted(set(a.val) | set(b.val)):
            if t not in b.val:
                return f'tag "{t}" is written but not read'
            if t not in a.val:
                return f'tag "{t}" is read but not written'
            x, y = {labels(w) for w in a.val[t]}, {labels(w) for w in b.val[t]}
            # a loop in the written items appears as several words on either side
            if not x & y:
                return f'the value of tag "{t}" is written as {sorted(x)} and read as {sorted(y)}'
    return None


def merge(words):
    """fold words whose tagged objects have the same tags into one per label sequence"""
    out = {}
    for w in words:
        k = tuple(("OBJ", tuple(sorted(i.val))) if i.label == "OBJ" else i.label for i in w)
        if k in out and any(i.label == "OBJ" for i in w):
            for i, j in zip(out[k][0], w):
                if i.label == "OBJ":
                    for t in j.val:
                        i.val[t] = set(i.val[t]) | set(j.val[t])
        else:
            out.setdefault(k, []).append(w)
    return [w for ws in out.values() for w in ws]


def compare(ctx, p, rule, inst, enc, dec, where, prefix=False):
    """sets of words of a writer and of its reader; `prefix`: the reader may stop early"""
    enc, dec = merge(enc), merge(dec)
    if getattr(ctx, "words", None) is not None:
        ctx.words.setdefault((rule, inst), []).extend(enc)
    le, ld = {labels(w) for w in enc}, {labels(w) for w in dec}
    bad = None
    if prefix:
        miss = [w for w in enc if not any(labels(w)[:len(d)] == d for d in ld)]
        extra = [w for w in dec if not any(e[:len(w)] == labels(w) for e in le)]
    else:
        miss = [w for w in enc if labels(w) not in ld]
        extra = [w for w in dec if labels(w) not in le]
    if miss:
        w = min(miss, key=len)
        bad = f"written but not read: {show(w)}; read: " + " | ".join(show(x) for x in sorted(dec, key=len)[:4])
    elif extra:
        w = min(extra, key=len)
        bad = f"read but not written: {show(w)}; written: " + " | ".join(show(x) for x in sorted(enc, key=len)[:4])
    else:
        for w in enc:
            c = [d for d in dec if labels(d) == labels(w) or prefix and labels(w)[:len(d)] == labels(d)]
            r = [objdiff(w, d) for d in c]
            if all(r):
                bad = r[0]
                break
    ctx.ob(rule, inst, bad is None, where, bad or f"{len(enc)} sequences written, {len(dec)} read")
    if bad is None:
        why = None
        for w in enc:
            c = [d for d in dec if labels(d) == labels(w) or prefix and labels(w)[:len(d)] == labels(d)]
            r = [wclash(p, w, d) for d in c]
            if all(r):
                why = r[0]
                break
        ctx.ob("members", inst, why is None, where, why or "items go to the members they came from")


def streamparam(f):
    for x in f.params:
        if re.match(r"eckit::\w*Stream &$", x[2]):
            return x
    return None


def version_param(f):
    for x in f.params:
        if re.match(r"^(const )?(unsigned )?int$", x[2]):
            return x
    return None


def versioned(w, f, v, side):
    s = streamparam(f)
    env = Env()
    vp = version_param(f)
    if vp and v:
        env[vp[1]] = v
    ws = w.words(f, f"param:{s[0]}", env, side)
    return {w.fold(x) for x in ws}


def loops(ctx, p, w, f, S, side, done):
    """every loop that moves items is bounded by the count that was read, emits in each iteration and stops only between items"""
    sym = w.sym
    bl = f.blocks
    for h, body in f.loops:
        if (f.id, h) in done:
            continue
        te = bl[h][2]
        if te and isinstance(te[1], int) and te[1] >= 0 and any(
                f.n[j][0] == "call" and f.n[j][2]["q"].endswith("::endObjectFound") for j in f.walk(te[1])):
            continue
        inner = set()
        for h2, b2 in f.loops:
            if h2 != h and h2 in body:
                inner |= b2
        moves = [e for b in body for e in bl[b][0] if isinstance(e, int) and f.n[e][0] in ("call", "new")
                 and w.items(f, e, S, Env(), side)]
        if not moves:
            continue
        done.add((f.id, h))
        where = f.loc(moves[0])
        inst = f"{f.q} loop {len([1 for x in done if x[0] == f.id])}"
        # one iteration
        bad = None
        starts = [s for s in bl[h][1] if s in body]
        outs = {s for b in body for s in bl[b][1] if s >= 0 and s not in body and any(True for _ in [0])}
        it = set()
        for s in starts:
            it |= w.words(f, S, Env(), side, start=s, stop={h} | outs, notes=lambda b, s: ((w_exit(f, b),) if s in outs else ()))
        if any(not [x for x in x_ if x.label != "#exit"] and not any(y.label == "#exit" for y in x_) for x_ in it):
            bad = "an iteration may move no item"
        elif any(x_ and x_[-1].label == "#exit" and len(x_) > 1 for x_ in it):
            bad = "the loop may be left after an item of an unfinished iteration"
        if not bad and te and isinstance(te[1], int) and te[1] >= 0 and side == "dec":
            bad = bounds(w, f, te[1], body)
        ctx.ob("loop-bounds", inst, bad is None, where, bad or "each iteration moves its items; bounded by the count")


def w_exit(f, b):
    from vt.wire import Item
    return Item("#exit", f, b)


def bounds(w, f, cond, body):
    """deviation of a counted loop from 0 .. count read"""
    sym = w.sym
    fo = sym.formula(f, cond)
    if fo[0] != "atom":
        return None
    m = re.fullmatch(r"(.+?)(<|==)(.+)", fo[1])
    if not m:
        return None
    a, op, b = m.groups()
    iv = cnt = None
    off = 0
    rx = r"local:\w+"
    counts = set()
    for d, i in f.vars.items():
        nm = "local:" + w.p.lname(f, d, f.n[i][2]["n"])
        for j, x in enumerate(f.n):
            if x[0] == "call" and x[2]["q"] == "eckit::Stream::operator>>" and f.args(j):
                k = w.root(f, f.args(j)[-1])
                if f.n[k][0] == "ref" and f.n[k][2][2] == d:
                    counts.add(nm)
    if op == "<" and fo[2]:
        iv, cnt = a, b
    elif op == "<" and not fo[2]:
        iv, cnt, off = b, a, 1
    elif op == "==" and not fo[2]:
        iv, cnt = (a, b) if b in counts else (b, a)
    if iv is None:
        return None
    used = [c for c in counts if re.search(re.escape(c) + r"\b", cnt)]
    if not used:
        return None
    if cnt not in counts:
        return f"the loop is bounded by {cnt}, not by the count that was read"
    if not re.fullmatch(rx, iv):
        return None
    for d, i in f.vars.items():
        if "local:" + w.p.lname(f, d, f.n[i][2]["n"]) == iv and f.n[i][3]:
            init = sym.r(f, f.n[i][3][0])
            if re.fullmatch(r"\d+", init) and int(init) != off:
                return f"the loop counts from {init} {'to' if off else 'to below'} {cnt}"
            steps = [x for x in f.n if x[0] == "assign" and x[3] and f.n[x[3][0]][0] == "ref" and f.n[x[3][0]][2][2] == d]
            for x in steps:
                if x[2] == "+=" and sym.r(f, x[3][1]) != "1":
                    return f"the loop advances by {sym.r(f, x[3][1])}"
    return None


def reachers(p, f, depth=2):
    """f and its callers"""
    out, cur = [f], [f]
    for _ in range(depth):
        nxt = []
        for g in cur:
            for h in p.family(g)[1:]:
                nxt.append(h)
            for c in p.callers.get(g.id, ()):
                h = p.fns.get(c)
                if h is not None:
                    nxt.append(h)
        out += nxt
        cur = nxt
    return out


def tags_of(f):
    return {x[2][0] for x in f.n if x[0] == "ref" and re.match(r"^TOC_(INIT|INDEX|CLEAR|SUB_TOC)$", x[2][0])}


def toc_tag(p, f):
    for g in reachers(p, f):
        t = tags_of(g)
        if len(t) == 1:
            return next(iter(t))
        if t and g is not f:
            continue
    return None


def toc_records(ctx, p, w):
    """writers and readers of table-of-contents records, per tag"""
    enc, dec = {}, []
    for f in sorted(p.fns.values(), key=lambda f: f.id):
        if not f.file.endswith("toc/TocHandler.cc") or not f.blocks:
            continue
        for S in w.streams(f):
            ws = {w.fold(x) for x in w.words(f, S, Env(), "enc")}
            its = [i for x in ws for i in x]
            if not its:
                continue
            wr = any(f.n[i.node][2]["q"].rsplit("::", 1)[-1] in ("operator<<", "encode") for i in its if i.node >= 0)
            if wr:
                t = toc_tag(p, f)
                ctx.need(t, f"no record tag known for the payload written at {f.loc()}")
                enc.setdefault(t, {}).update({f: {x for x in ws if x}})
            else:
                own = tags_of(f)
                for t, x in w.by_case(f, S, Env(), "dec", r"TOC_\w+").items():
                    if t is None and len(own) == 1:
                        t = next(iter(own))
                    dec.append((f, t, x))
    ctx.need({"TOC_INIT", "TOC_INDEX", "TOC_CLEAR", "TOC_SUB_TOC"} <= set(enc), f"record writers found only for {sorted(enc)}")
    for t in sorted(enc):
        ls = {f.id: {labels(x) for x in ws} for f, ws in enc[t].items()}
        ref = max(ls.values(), key=len)
        if getattr(ctx, "words", None) is not None:
            ctx.words.setdefault(("toc-record", t), []).extend(x for ws in enc[t].values() for x in ws)
        for f, ws in enc[t].items():
            ctx.ob("toc-record", f"{t} written by {f.q}", ls[f.id] == ref and len(ref) == 1, f.loc(),
                   " | ".join(show(x) for x in ws))
    for f, t, ws in dec:
        cands = {labels(x) for k, fs in enc.items() if t is None or k == t for v in fs.values() for x in v}
        bad = [x for x in ws if not any(c[:len(x)] == labels(x) for c in cands)]
        ctx.ob("toc-record", f"{t or 'some record'} read by {f.q}", not bad, f.loc(),
               (f"reads {show(bad[0])} where " if bad else "reads a prefix of ") + " | ".join(" ".join(c) for c in sorted(cands)) + " is written")


def run(ctx):
    p = ctx.p
    w = Wire(p)
    done = set()
    pairs = []
    for c in sorted(w.readers):
        if not c.startswith("fdb5"):
            continue
        ws = w.writers.get(c)
        if not ws:
            # the writer is inherited
            sup = [x for x in p.superclasses(c) if x in w.writers and x != c]
            near = [x for x in sup if not any(y != x and x in p.superclasses(y) for y in sup)]
            ws = [f for x in near for f in w.writers[x]]
        for e in ws:
            for d in w.readers[c]:
                if any(x[0] == "?CXXInheritedCtorInitExpr" for x in d.n):
                    continue
                pairs.append((c, e, d))
    for c, e, d in pairs:
        vs = VERSIONS if version_param(e) and version_param(d) else (None,)
        for v in vs:
            we, wd = versioned(w, e, v, "enc"), versioned(w, d, v, "dec")
            if not any(we) and not any(wd):
                continue
            inst = c + (f" version {v}" if v else "")
            compare(ctx, p, "write-read", inst, we, wd, d.loc())
            why = sizes(we)
            ctx.ob("counts", inst, why is None, e.loc(), why or "each count is that of the container whose elements follow")
            for x in we | wd:
                for i in flat(x):
                    fs = streamparam(i.fn)
                    if fs:
                        loops(ctx, p, w, i.fn, f"param:{fs[0]}", "enc" if x in we else "dec", done)
    ctx.need(not w.truncated, f"too many sequences in {sorted(w.truncated)}")

    # operators are the codec itself
    for f in p.fns.values():
        if f.name in ("operator<<", "operator>>") and not f.cls and len(f.params) == 2 and f.params[0][2] == "eckit::Stream &" and f.blocks:
            c = bare(f.params[1][2])
            if f.name == "operator<<" and f in [g for gs in w.writers.values() for g in gs]:
                continue
            if c in w.paired or w.isreader(c):
                ws = w.words(f, f"param:{f.params[0][0]}", Env(), "enc" if f.name == "operator<<" else "dec")
                ctx.ob("operator", f.id, {labels(x) for x in ws} == {(w.canon(c),)}, f.loc(), " | ".join(show(x) for x in ws))

    toc_records(ctx, p, w)

    # object storage: entries of an index
    enc = words_of(w, p.find("fdb5::DaosIndex::add"), "enc")
    for q in ("fdb5::DaosIndex::get", "fdb5::DaosIndex::dataURIs", "fdb5::DaosLazyFieldLocation::realise"):
        for f in p.find(q):
            dec = words_of(w, [f], "dec")
            ctx.need(dec, f"{q} reads nothing")
            ctx.ob("write-read", q, {labels(x) for x in dec} == {labels(x) for x in enc}, f.loc(),
                   "written " + " | ".join(map(show, enc)) + "; read " + " | ".join(map(show, dec)))

    # polymorphic values are rebuilt as what they were
    names = {}
    specs = {}
    for g in p.globals:
        if g["q"].endswith("::classSpec_") and g["q"].startswith("fdb5::"):
            lit = [x[2] for x in g["n"] if x[0] == "str"]
            cls = g["q"][:-len("::classSpec_")]
            if lit:
                names.setdefault(lit[0], []).append(cls)
                specs[cls] = lit[0]
    for nm, cs in sorted(names.items()):
        ctx.ob("types-reanimable", f"name {nm}", len(cs) == 1, "", f"used by {', '.join(cs)}")
    for c in sorted(w.streamable):
        if not c.startswith("fdb5") or p.classes[c].get("abstract") or c not in w.readers:
            continue
        r = [f for f in p.fns.values() if f.cls == c and f.name == "reanimator"]
        txt = []
        for f in r:
            txt += [w.sym.r(f, f.ch(j)[0]) for j in f.walk() if f.n[j][0] == "return" and f.ch(j)]
        ctx.ob("types-reanimable", c, len(r) == 1 and txt == [c + "::reanimator_"], r[0].loc() if r else "",
               f"reanimator() returns {txt}" if r else "no reanimator of its own: its values are rebuilt as another type")

    # a listed element carries a location exactly when it has a datum key
    for f in p.find("fdb5::ListElement::<ctor>"):
        s = streamparam(f)
        if not s:
            continue
        for i, inf in f.calls():
            if inf["q"] != "eckit::Reanimator::reanimate":
                continue
            idx = [key_index(w, f, f.ch(a)[0]) for a in f.ancestors(i) if f.n[a][0] in ("if", "cond")]
            idx = [x for x in idx if x is not None]
            if idx:
                ctx.ob("members", "presence of the location of a list element", all(x == 2 for x in idx), f.loc(i),
                       f"the location is read depending on key {idx}")
        for i, x in enumerate(f.n):
            if x[0] == "call" and x[2]["q"].endswith("::operator=") and len(x[3]) == 2:
                l, r = key_index(w, f, x[3][0]), key_index(w, f, x[3][1])
                if l is not None and r is not None:
                    ctx.ob("members", f"key {l} of a list element", l == r, f.loc(i), f"key {r} of the stream goes to key {l}")
    for f in p.find("fdb5::ListElement::encode"):
        k = 0
        for b, i in order_calls(f):
            if f.n[i][2]["q"].endswith(("::push_back", "::emplace_back")) and f.args(i):
                x = key_index(w, f, f.args(i)[0])
                if x is not None:
                    ctx.ob("members", f"key {k} written of a list element", x == k, f.loc(i), f"key {x} is written at position {k}")
                    k += 1


def key_index(w, f, node):
    """the constant subscript in an expression over the keys of a list element"""
    for j in f.walk(node):
        x = f.n[j]
        if x[0] == "call" and x[2]["q"].rsplit("::", 1)[-1] in ("operator[]", "at") and f.args(j):
            t = w.sym.r(f, f.args(j)[-1])
            if re.fullmatch(r"\d+", t):
                return int(t)
    return None


def words_of(w, fns, side):
    out = set()
    for f in fns:
        for S in w.streams(f):
            out |= {w.fold(x) for x in w.words(f, S, Env(), side) if x}
    return out


def flat(x):
    for i in x:
        if i.label == "OBJ":
            for t in i.val.values():
                for y in t:
                    yield from flat(y)
            if i.node >= 0:
                yield i
        else:
            yield i


def sizes(ws):
    """a count written directly before the elements of another container"""
    for x in ws:
        for a, b in zip(x, x[1:]):
            if a.role and b.role and a.role[0] == "size" and b.role[0] in ("elem", "first", "second") and b.role[1] and a.role[1] != b.role[1] and a.fn is b.fn:
                return f"the count of {a.role[1]} precedes the elements of {b.role[1]}"
    return None
