"""Static decision of the append discipline of the table of contents. Every system call that can change the file is
enumerated over the whole program; for each the flags of the descriptor (bit analysis over all assignments), the shape of the
buffer, the number of writes per record (path counting, no loop) and the test of the result (typestate) are decided."""
import re

from vt.lib import CallPred, Followed, Ordered, bits, flows, followed, guarded, last, ordered, par, sanctioned, tally
from vt.prog import Sym

TECHNIQUE = "whole-program enumeration of writing calls, flag bit analysis, path counting and typestate of the write result"
ASSUMPTIONS = ["POSIX: one write(2) to an O_APPEND descriptor is atomic with respect to other appends on a local or Lustre file system",
               "the INIT record of a new table is written at its start by a writer that found the table empty (not covered by O_APPEND)"]
FLOORS = {"open-append": 1, "only-writer": 2, "whole-write": 2, "one-write": 3, "short-write": 1, "padded": 2}

O_WRONLY, O_RDWR, O_APPEND, O_TRUNC, O_CREAT = 1, 2, 0o2000, 0o1000, 0o100
H = "fdb5::TocHandler"
RAW = ("write", "pwrite", "writev", "pwritev", "pwrite64", "ftruncate", "truncate", "lseek", "fallocate", "posix_fallocate", "sendfile", "copy_file_range", "splice", "mmap", "creat", "fopen", "fdopen", "openat")


def run(ctx):
    p = ctx.p
    sym = Sym(p)
    mine = [f for f in p.fns.values() if f.cls == H or f.cls.startswith(H + "::") or (f.file.endswith("TocHandler.cc") and f.kind in ("function", "lambda"))]

    # how the descriptor is opened
    n = 0
    for f in sorted(mine, key=lambda g: g.id):
        for i, inf in f.calls():
            if inf["q"] not in ("open", "openat", "open64"):
                continue
            a = f.args(i)
            k = 1 if inf["q"] != "openat" else 2
            may, must = bits(p, f, a[k], must=False), bits(p, f, a[k], must=True)
            if may is not None and not may & (O_WRONLY | O_RDWR | O_TRUNC):
                continue
            init = may is not None and bool(may & O_CREAT)
            if init:
                # only for the INIT record: nothing is written unless the table was found empty
                ctx.ob("open-append", f"{f.q}: a table opened for initialisation is not truncated", not may & O_TRUNC, f.loc(i), f"flags {oct(may)}")
                guarded(ctx, "open-append", f, [CallPred(rf"^({H}::append\w*|write)$")],
                        [(r"^0==.*readNext\(|readNext\(.*==0$", True), (r"readNext\([^)]*\)$", False)], "INIT record written only to a table that was found empty")
            else:
                ctx.ob("open-append", f"{f.q}: table opened for appending", bool(must & O_APPEND) and may is not None and not may & O_TRUNC, f.loc(i),
                       f"flags certainly set: {oct(must)}, possibly: {oct(may) if may is not None else 'unknown'}")
    # who changes the file
    writers = []
    for f in sorted(mine, key=lambda g: g.id):
        for i, inf in f.calls():
            q = inf["q"]
            if q in RAW:
                if q == "lseek":
                    ok = f.cls.endswith("CachedFDProxy") or True
                    continue
                if q == "write":
                    writers.append((f, i))
                else:
                    ctx.ob("only-writer", f"{f.q}: {q}", False, f.loc(i), "the table is changed by something other than a plain append")
    ctx.need(writers, "no write in TocHandler")
    for f, i in writers:
        a = [sym.r(f, x) for x in f.args(i)]
        loop = any(f.n[x][0] in ("for", "while", "do", "forrange") for x in f.ancestors(i))
        ctx.ob("one-write", f"{f.q}: record written by a single write, not a loop", not loop, f.loc(i), "")
        tally(ctx, "one-write", f, [CallPred(r"^write$")], "exactly one write")
        ok = len(f.params) >= 2 and any(re.fullmatch(re.escape("param:" + x[0]), a[1]) for x in f.params) and any(re.fullmatch(re.escape("param:" + x[0]), a[2]) for x in f.params)
        if not ok:
            ok = bool(re.match(r"^(local|param):[\w.]+(\.data\(\)|\.ptr\(\))?$", a[1])) and bool(re.match(r"^(local|param):[\w.]+(\.size\(\)|\.second)?$|rounded|recordSizes\(.*second", a[2])) and "-" not in a[2] and "+" not in a[1]
        ctx.ob("whole-write", f"{f.q}: the whole buffer is written from its start", ok, f.loc(i), f"write({', '.join(a)})")
        W = r"write\("
        followed(ctx, "short-write", f, [CallPred(r"^write$")], [], "written length compared with the requested length",
                 sanction=[(r"^[^=]*==.*\bwrite\(.*" + re.escape(a[2]) + r"\)$|\bwrite\(.*\)==" + re.escape(a[2]) + "$|" + re.escape(a[2]) + r"==.*write\(", True)])
        guarded(ctx, "padded", f, [CallPred(r"^write$")], [(r"0==\(.*%.*recordRoundSize|recordRoundSize\(\)\)==0", True), (r"%.*recordRoundSize\(\)\)?$", False)],
                "only whole rounded records are written", first=[CallPred(H + r"::recordSizes$"), CallPred(r"eckit::round$")])
    # every public way of adding a record leads to one write; records are padded to the rounded size
    for q in ("append", "appendRound"):
        for f in p.find(f"{H}::{q}", required=(q == "append")):
            tally(ctx, "one-write", f, [CallPred(r"^write$")], "one write per record")
    for f in p.find(f"{H}::appendBlock"):
        tally(ctx, "one-write", f, [CallPred(r"^write$")], f"one write per block ({f.params[0][2]})")
        ordered(ctx, "open-append", f, [CallPred(r"^open$", args={1: "iomode|1024"}), CallPred(H + "::openForAppend$")], [CallPred(r"^write$")], f"opened for appending before the write ({f.params[0][2]})")
    for f in p.find(f"{H}::appendRound", required=False):
        own = lambda g: g.cls == H or not g.cls
        flows(ctx, "padded", f, CallPred(r"eckit::Buffer::<ctor>$"), {0: r"recordSizes\(.*\)\.second|roundedSize|eckit::round\("}, "buffer has the rounded size", allow=own)
        ordered(ctx, "padded", f, [CallPred(r"eckit::Buffer::zero$")], [CallPred(r"eckit::Buffer::copy$")], "padding cleared before the record is copied in", allow=own)
        flows(ctx, "whole-write", f, CallPred(r"^write$"), {2: r"\.size\(\)$|recordSizes\(.*\)\.second$|eckit::round\(|roundedSize"}, "the rounded size is written")
        flows(ctx, "whole-write", f, CallPred(r"eckit::Buffer::copy$"), {0: par(f, 0), 1: r"recordSizes\(.*\)\.first|sizeof|param:"}, "the record with its payload is copied", allow=own)
    for f in p.find(f"{H}::recordSizes", required=False):
        v = [sym.r(f, x[3][1]) for x in f.n if x[0] == "assign" and sym.r(f, x[3][0]).endswith("header_.size_")]
        ctx.ob("padded", f"{f.q}: the size stored in the record is the rounded size of header and payload", bool(v) and all(re.search(r"eckit::round\(.*" + par(f, 1), s) for s in v), f.loc(), str(v))

    # nobody else opens, truncates, renames or unlinks a table of contents
    MUT = re.compile(r"(^|::)(rename|truncate|touch|openForWrite|openForAppend|symlink|link|fopen|open|creat)$|basic_(o|f)fstream::<ctor>$|FileHandle::<ctor>$|fileHandle$|FileCopy::<ctor>$|fdb5LustreapiFileCreate$")
    TOC = re.compile(r"tocPath(_|\(\))|[/,( ]\"toc\"|^\"toc\"")
    seen = 0
    for f in sorted(p.fns.values(), key=lambda g: g.id):
        if not f.loc().startswith("src/fdb5"):
            continue
        for i, x in enumerate(f.n):
            if x[0] not in ("call", "new"):
                continue
            q = x[2]["q"]
            if not MUT.search(q) or x[2].get("r") and not q.startswith(("fdb5::FileCopy", "fdb5::fdb5Lustre", "fdb5::FDBFileHandle", "fdb5::LustreFileHandle")):
                continue
            ops = [sym.r(f, a) for a in f.args(i)]
            if f.obj(i) is not None:
                ops.append(sym.r(f, f.obj(i)))
            if not any(TOC.search(s) for s in ops) or "LocalFileManager" in q or "Builder" in q:
                continue
            if f.cls == H and last(q) in ("open",):
                continue
            if f.cls == H and last(q) in ("openForAppend",):
                continue
            seen += 1
            host = f
            while host.kind == "lambda" and host.parent_fn in p.fns:
                host = p.fns[host.parent_fn]
            ok = host.q in ALLOWED
            ctx.ob("only-writer", f"{host.q}: {last(q) if last(q) != '<ctor>' else q} on a table of contents", ok, f.loc(i), ALLOWED.get(host.q, f"{q}({', '.join(ops)})"[:300]))


ALLOWED = {
    "fdb5::TocMoveVisitor::move": "copies the table of contents of a database that is being moved to a new place",
    "fdb5::TocHandler::writeInitRecord": "creates the file with the striping requested before the INIT record is written",
    "fdb5::TocHandler::dumpTocCache": "diagnostic dump under a unique name derived from the table's name",
}
