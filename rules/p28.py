"""P28 reading operations have no effect on stored data"""
import collections
import re

from vt.engine import Frame
from vt.lib import MUTATORS, CallPred, bits, expand, last
from vt.prog import Sym

TECHNIQUE = "effect analysis: closure of the call graph under rapid type analysis from every reading operation, searched for operations that change files, tables of contents, indexes or objects; constant analysis of open modes"
FLOORS = {"effect": 15, "mode": 3, "index": 2}
ASSUMPTIONS = ["eckit's data handles for files change them only when opened with openForWrite or openForAppend, and its B-trees only through set, flush, sync and flock when opened writable",
               "the streams of Log and std::cout are not stored data"]

EXTRA = [
    CallPred(r"^std::filesystem::(remove|remove_all|rename|create_\w+|copy|copy_file|resize_file|permissions|last_write_time)$"),
    CallPred(r"^(utime|utimes|utimensat|futimens|chown|fchown|fchmod|unlinkat|renameat|mkdirat|mkstemp|creat|remove|lockf|setxattr|fputc|putc|vfprintf|copy_file_range|fallocate|posix_fallocate|mknod)$"),
    CallPred(r"^std::(basic_)?(ofstream|fstream)\b.*(<ctor>|::open)$"),
    CallPred(r"^eckit::(?!Memory|Circular|TCP|Buffered)\w*Handle::openFor(Write|Append)$"),
    CallPred(r"^eckit::(FileLock|TmpFile|TmpDir|FileMutex|PidFile)::"),
    CallPred(r"^std::basic_ofstream"),
]
OPS = re.compile(r"^fdb5::(LocalFDB|SelectFDB|RandomFDB|RemoteFDB|FDBBase|FDB|Archiver|Reindexer)::(archive|flush|wipe|purge|move|control|reindex|overlayDB)$")
DUMP = re.compile(r"^eckit::DataHandle::(copyTo|saveInto)$")

READS = {"LocalFDB": r"^(list|inspect|dump|status|stats|axesIterator)$", "FDB": r"^(list|inspect|retrieve|read|dump|status|stats|axes|axesIterator|sorted|size|print)$"}
HANDLER = re.compile(r"^(list|inspect|axes|stats|status|dump|exists|stores|read|readLocationThreadLoop|writeToParent)$")


BUILDS = re.compile(r"^std::make_(?:unique|shared)<([\w:]+(?:<[\w:, ]*>)?)[,>]")


class Reach:
    """functions that an operation may run: virtual calls on visitors, writers and handlers go only to classes that the operation itself makes"""

    def __init__(self, p):
        self.p = p
        sub = lambda b: {c for c in p.classes if c == b or b in p.superclasses(c)}
        self.gated = sub("fdb5::EntryVisitor") | sub("fdb5::CatalogueWriter") | sub("fdb5::WriteVisitor") | sub("fdb5::BaseArchiveVisitor")

    def close(self, roots, inst=()):
        p = self.p
        inst = set(inst)
        seen, wait = {}, collections.defaultdict(list)
        work = [(r, None) for r in roots]
        ok = lambda c: c not in self.gated or any(c == x or c in p.superclasses(x) for x in inst)

        def made(c):
            if c in self.gated and c not in inst:
                inst.add(c)
                for k in [k for k in wait if ok(k)]:
                    work.extend(wait.pop(k))
        while work:
            f, frm = work.pop()
            if f.id in seen:
                continue
            seen[f.id] = frm
            if f.kind == "ctor" and f.cls:
                made(f.cls)
            for i, inf in f.calls():
                if f.n[i][0] == "new":
                    made(inf["q"].rsplit("::<ctor>", 1)[0])
                cls = BUILDS.match(inf["id"])
                if cls and cls.group(1) in p.classes:
                    for g in p.byq.get(cls.group(1) + "::<ctor>", []):
                        if len(f.args(i)) <= len(g.params) and not g.d.get("implicit"):
                            work.append((g, (f.id, i)))
                    made(cls.group(1))
                for g in p.targets(inf):
                    if inf.get("v") and g.cls and not ok(g.cls):
                        wait[g.cls].append((g, (f.id, i)))
                    else:
                        work.append((g, (f.id, i)))
            for k in p.callees(f):
                g = p.fns.get(k) if isinstance(k, str) else k
                if g is not None and (g.kind == "dtor" and not g.d.get("virtual") or g.parent_fn == f.id):
                    work.append((g, (f.id, 0)))
            for g in p.lambdas_of(f):
                work.append((p.fns[g] if isinstance(g, str) else g, (f.id, 0)))
        return seen, inst


def chain(p, seen, k):
    out = []
    while k:
        out.append(p.fns[k].q.replace("fdb5::", ""))
        k = seen[k][0] if seen[k] else None
    return " <- ".join(out[:9])


def run(ctx):
    p = ctx.p
    sym = Sym(p)
    reach = Reach(p)
    ops = []
    for c, rx in READS.items():
        for f in p.fns.values():
            if f.cls == "fdb5::" + c and re.match(rx, f.name) and f.blocks:
                ops.append((f"{c}::{f.name}({', '.join(last(a[2]) for a in f.params)})", [f], ()))
    for c in p.classes:
        if "fdb5::remote::ServerConnection" in p.superclasses(c):
            for f in p.fns.values():
                if f.cls == c and HANDLER.match(f.name) and f.blocks:
                    ops.append((f"{last(c)}::{f.name}", [f], ()))
    for f in p.fns.values():
        if f.name == "dataHandle" and f.cls and (f.cls == "fdb5::FieldLocation" or "fdb5::FieldLocation" in p.superclasses(f.cls)) and f.blocks:
            ops.append((f"{last(f.cls)}::dataHandle", [f], ()))
    # the handles that they yield
    made = set()
    for name, rs, inst in list(ops):
        seen, _ = reach.close(rs, inst)
        for k in seen:
            f = p.fns[k]
            for i, inf in f.calls():
                if f.n[i][0] == "new":
                    c = inf["q"].rsplit("::<ctor>", 1)[0]
                    if c.startswith("fdb5::") and "eckit::DataHandle" in p.superclasses(c):
                        made.add(c)
    for c in sorted(made):
        rs = [f for f in p.fns.values() if f.cls == c and f.blocks and f.name in ("openForRead", "read", "seek", "skip", "close", "rewind", "position", "size", "estimate", "canSeek", "merge", "compress", "restartReadFrom", "print")]
        ops.append((f"{last(c)} (reading)", rs, ()))
    # listings of whole databases, indexes and fields by the reading catalogues
    for c in p.classes:
        if "fdb5::CatalogueReader" in p.superclasses(c):
            rs = [f for f in p.fns.values() if f.cls == c and f.blocks and (f.kind == "ctor" or f.d.get("virtual") or f.d.get("ov"))]
            ops.append((f"{last(c)} (reading)", rs, ()))
    ctx.need(len(ops) > 15, "reading operations not found")

    # the choice of a file system for a database that does not exist is recorded outside databases
    beside = {c for c in p.classes if "fdb5::FileSpaceHandler" in p.superclasses(c)}
    allseen = {}
    for name, rs, inst in sorted(ops, key=lambda o: o[0]):
        seen, made = reach.close(rs, inst)
        bad = []
        for k in sorted(seen):
            f = p.fns[k]
            fr = None
            for i, inf in f.calls():
                if OPS.match(inf["q"]):
                    bad.append((f.loc(i), f"{inf['q']}, reached by {chain(p, seen, k)}"))
                for m in MUTATORS + EXTRA:
                    if not m.quick(inf):
                        continue
                    fr = fr or Frame(f, {})
                    if not m(sym, fr, i, inf):
                        continue
                    if DUMP.match(inf["q"]) and aside(sym, f, i):
                        continue
                    if f.cls in beside:
                        continue
                    bad.append((f.loc(i), f"{inf['q']}, reached by {chain(p, seen, k)}"))
            allseen.setdefault(k, name)
        ctx.functions.update(seen)
        ctx.ob("effect", f"{name}: changes nothing", not bad, bad[0][0] if bad else rs[0].loc(), bad[0][1] if bad else f"{len(seen)} functions reached")

    # modes
    n = 0
    for k in sorted(allseen):
        f = p.fns[k]
        for i, inf in f.calls():
            if re.match(r"^(::)?(open|open64)$", inf["q"]):
                may = bits(p, f, f.args(i)[1], must=False)
                n += 1
                # O_WRONLY, O_RDWR, O_CREAT, O_TRUNC, O_APPEND
                ctx.ob("mode", f"{f.id}: opens for reading only", may is not None and not may & (0o1 | 0o2 | 0o100 | 0o1000 | 0o2000), f.loc(i), f"flags {'unknown' if may is None else oct(may)}; reached by {allseen[k]}")
            elif re.match(r"^(::)?(openat|fdopen|freopen)$", inf["q"]):
                ctx.ob("mode", f"{f.id}: opens for reading only", False, f.loc(i), f"{inf['q']} with a mode that is not known")
            elif inf["q"] == "fopen":
                n += 1
                t = sym.r(f, f.args(i)[1])
                ctx.ob("mode", f"{f.id}: opens for reading only", bool(re.match(r'^"rb?e?"$', t)), f.loc(i), f"mode {t}; reached by {allseen[k]}")
            elif inf["q"].startswith("daos_") and "open" in inf["q"]:
                n += 1
    ctx.ob("mode", "files opened by reading operations", n > 0, "", f"{n} call(s)")

    # indexes
    fac = [(f, i) for k in allseen for f in [p.fns[k]] for i, inf in f.calls() if re.search(r"BTreeIndexFactory::build$", inf["q"])]
    ctx.need(fac, "nothing builds the trees of the indexes")
    for f, i in fac:
        a = [x for x in f.args(i)]
        ro = [x for x in a if re.search(r"==|!=|READ|true|false|readOnly", expand(sym, f, sym.r(f, x)))]
        t = expand(sym, f, sym.r(f, ro[0])) if ro else "?"
        m = re.match(r"^\(?(?:this\.(\w+)==([\w:]+READ)|([\w:]+READ)==this\.(\w+))\)?$", t)
        ctx.ob("index", f"{f.id}: the tree of an index is read-only exactly when the index is", bool(m), f.loc(i), t)
        if not m:
            continue
        mode = m.group(1) or m.group(4)
        read = m.group(2) or m.group(3)
        for g in sorted(p.fns.values(), key=lambda h: h.id):
            if g.cls != f.cls or g.kind != "ctor" or g.id not in allseen:
                continue
            v = [sym.r(g, it[2]) for it in g.inits if it[0] == "field" and last(it[1]) == mode and it[2] is not None and it[2] >= 0]
            ctx.ob("index", f"{g.id}: an index that is read is opened for reading only", v == [read], g.loc(), f"{mode} = {v}")
        w = sorted({g.loc(j) for g in p.fns.values() if g.cls == f.cls for j, x in enumerate(g.n) if x[0] == "assign" and re.search(r"this\." + mode + "$", sym.r(g, x[3][0])) and g.id in allseen})
        ctx.ob("index", f"{f.cls}: an index does not change from reading to writing", not w, w[0] if w else f.loc(), "the mode is set by the constructors only")
    for c in sorted(p.classes):
        b = c + "::<ctor>"
        if not re.search(r"\bTBTreeIndex\b", c):
            continue
        for g in p.byq.get(b, []):
            ix = [a[0] for a in g.params if a[2].endswith("bool")]
            v = [sym.r(g, it[2]) for it in g.inits if it[0] == "field" and it[2] is not None and it[2] >= 0 and "BTree" in sym.r(g, it[2]) or it[0] == "field" and "btree" in last(it[1])]
            ctx.ob("index", f"{c}: hands on whether it is read-only", bool(ix) and any(f"param:{ix[0]}" in x for x in v), g.loc(), str(v)[:120])


def aside(sym, f, i):
    """is the file written to one beside the database, in the working directory? (diagnostics)"""
    t = expand(sym, f, sym.r(f, f.args(i)[0]))
    m = re.search(r"FileHandle\((.*)", t)
    if not m:
        return False
    rest = re.sub(r"this\.\w+\.baseName\((true|false)?\)", "BASE", m.group(1))
    return "this." not in rest and "param:" not in rest and "BASE" in rest
