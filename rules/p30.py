"""Static decision of "moving a database never loses it": what is refused first, the order in which the copies are queued, and that the
source is removed only after everything was copied."""
import re

from vt.lib import AssignPred, CallPred, below, expand, flows, guarded, last, never_after, ordered, par, pathfacts
from vt.prog import Sym

TECHNIQUE = "guards and order of the copies queued for a move (path facts over the interprocedural CFG), provenance of sources and destinations, order of copying and removal in the tool"
ASSUMPTIONS = ["eckit's distributed actors run finalise() after run(); ThreadPool::wait reports failed tasks", "eckit::FileHandle::copyTo copies whole files or throws"]
FLOORS = {"refuse": 4, "order": 3, "copy": 3, "tool": 3}

NEXT = [CallPred(r"^readdir$"), CallPred(r"iterator\w*::operator\+\+$"), AssignPred(r"^local:", None, ("++", "p++", "+="))]
FC = CallPred(r"fdb5::FileCopy::<ctor>$")


def run(ctx):
    p = ctx.p
    F = p.find
    sym = Sym(p)

    # 1. what is refused before anything is copied
    A = "fdb5::api::local::MoveVisitor"
    INNER = CallPred(r"^fdb5::\w*Visitor::visitDatabase$", obj=r"internalVisitor_")
    CTL = CallPred(r"^fdb5::\w*Catalogue\w*::control$", args={0: r"Disable$"})
    near = lambda g: g.cls == A or not g.cls
    for f in F(A + "::visitDatabase"):
        ordered(ctx, "refuse", f, [CTL], [INNER], "the source is locked first", allow=near)

        def at(d, fr, i):
            for k, n in (("a", "Archive"), ("w", "Wipe"), ("u", "UniqueRoot")):
                if d.get(k) is not False:
                    return f"a database is moved though it may still be open for {n}"
            if not d.get("m"):
                return "a database other than the one asked for is moved"

        T = {k: rf"\.enabled\(fdb5::ControlIdentifier::{n}\)|ControlIdentifier::{n}\)" for k, n in (("a", "Archive"), ("w", "Wipe"), ("u", "UniqueRoot"))}
        T["m"] = r"\.match\("
        pathfacts(ctx, "refuse", f, T, "moved only while locked against archiving and wiping", at=[(INNER, at)], allow=near, need_hits=True)
        for g in below(p, f, near):
            for i, inf in g.calls():
                if CTL.q.search(inf["q"]) and len(g.args(i)) == 2:
                    b = expand(sym, g, sym.r(g, g.args(i)[1]))
                    ctx.ob("refuse", f"{f.q}: archiving, wiping and a second root are locked", all(f"ControlIdentifier::{n}" in b for n in ("Archive", "Wipe", "UniqueRoot")), g.loc(i), b)
    V = "fdb5::TocMoveVisitor"
    own = lambda g: g.cls == V or not g.cls
    MV = CallPred(r"^fdb5::\w*Store::moveTo$")
    EMP = CallPred(r"Queue::(emplace|push)$")
    for f in F(V + "::visitDatabase"):
        def at(d, fr, i):
            if not d.get("root"):
                return "a database is moved to a place that is not one of the roots that may take it"
            if d.get("there") is not False:
                return "a database is moved into a directory that may exist already"
            if d.get("can") is not True:
                return "a database is moved though its store cannot be moved there"

        pathfacts(ctx, "refuse", f, {"root": r"elem\(.*canMoveToRoots.*\.sameAs\(this\.dest_", "there": r"this\.dest_\.path\(\)/.*\.exists\(\)$", "can": r"::?canMoveTo\(|\.canMoveTo\("},
                  "moved only into a known root where it does not exist", at=[(MV, at)], allow=own, need_hits=True)
    for f in F("fdb5::TocStore::canMoveTo"):
        pathfacts(ctx, "refuse", f, {"same": r"elem\(.*canMoveToRoots.*\.sameAs\("}, "a store says it can be moved only to a known root", allow=lambda g: g.cls == f.cls or not g.cls,
                  check=lambda o, d: "an unknown root is accepted" if o and not d.get("same") else None)

    # 2. order and completeness of what is queued
    for f in F(V + "::move"):
        NAMES = {"i": r'strstr\(.*d_name.*,"\.index"\)', "t": r'strstr\(.*d_name.*,"toc\."\)', "s": r'strstr\(.*d_name.*,"schema"\)', "l": r'strstr\(.*d_name.*,"\.lock"\)', "u": r'strstr\(.*d_name.*,"duplicates\.allow"\)'}
        TOC = CallPred(FC.q.pattern, args={2: r'^"toc"$|\("toc",'})
        DIR = CallPred(FC.q.pattern, args={2: r'^""$|\("",'})

        def copy(d, fr, i):
            a = [sym.r(fr.fn, x, fr.env) for x in fr.fn.args(i)]
            if len(a) < 4:
                return None
            if "directory_" not in a[0] and "basePath" not in a[0]:
                return "what is copied does not come from the database that is moved"
            toc, folder = bool(re.search(TOC.args[2], a[2])), bool(re.search(DIR.args[2], a[2]))
            if folder:
                return None if d.get("T") else "the source directory is queued for removal before the table of contents"
            if "this.dest_" not in a[1] or "baseName" not in a[1]:
                return "something is copied elsewhere than to the destination"
            if toc:
                return None if a[3] in ("true", "1") and d.get("D") and not d.get("T") else "the table of contents is not marked as the last to copy, or comes before the data"
            if a[3] not in ("false", "0"):
                return "something other than the table of contents is marked as the last to copy"
            if d.get("T") and not (d.get("l") or d.get("u")):
                return "something is copied after the table of contents that refers to it"
            if d.get("X"):
                return "something is queued after the source directory"

        SEEN = {"c": [FC], "T": [TOC], "D": [MV], "X": [DIR]}

        def nxt(d, fr, i):
            if not d.get("T") and (d.get("i") or d.get("t") or d.get("s")) and not d.get("c"):
                return "a file of the database is left out"

        pathfacts(ctx, "order", f, NAMES, "data, then indexes and schema, then the table of contents, then the rest", events=SEEN, at=[(FC, copy), (NEXT[0], nxt)],
                  kills=[(NEXT, ["i", "t", "s", "l", "u", "c"]), ([NEXT[1]], ["T", "X"])], allow=own, need_hits=True, boolean=False)
        flows(ctx, "order", f, MV, {0: r"key|Key", 2: r"^this\.dest_$", 3: r"^this\.queue_$"}, "the store is moved to the same destination", allow=own)
        # every file copy is queued, for good
        for g in below(p, f, own):
            n = sum(1 for i, x in enumerate(g.n) if x[0] == "new" and FC.q.search(x[2]["q"]) and len(g.args(i)) >= 4)
            m = {sym.r(g, g.args(i)[0]) for i, inf in g.calls() if EMP.q.search(inf["q"])}
            if n:
                ctx.ob("order", f"{g.q}: each copy is queued", len(m) >= n or any("FileCopy(" in x or "param:" in x for x in m), g.loc(), f"{n} copies, {sorted(m)}")
        pathfacts(ctx, "order", f, {"r": r"elem\(.*canMoveToRoots.*\.sameAs\(this\.dest_"}, "the database is queued whole, table of contents included", events={"T": [TOC], "X": [DIR], "D": [MV]},
                  kills=[([CallPred(r"iterator\w*::operator\+\+$")], ["r"])], at=[(CallPred(r"iterator\w*::operator\+\+$"), lambda d, fr, i: "the root is found but the table of contents is not queued" if d.get("r") and not (d.get("T") and d.get("X")) else None)],
                  check=lambda o, d: None if d.get("D") else "the data are not moved", allow=own, boolean=False)
    for f in F("fdb5::TocStore::moveTo"):
        MK = CallPred(r"std::make_unique$", args={2: "d_name"})
        sown = lambda g: g.cls == f.cls or not g.cls
        pathfacts(ctx, "copy", f, {"d": r'strstr\(.*d_name.*,"\.data"\)', "e": r'\.extension\(\)==|extension\(\)', "x": r"auxFileExtensions_"}, "every data file and what accompanies it is queued", events={"c": [FC, MK]},
                  at=[(CallPred(r"^readdir$"), lambda d, fr, i: "a data file may be left out" if d.get("d") and d.get("c") is not True and (d.get("e") is True or d.get("x") is False and False) else None)],
                  kills=[([CallPred(r"^readdir$")], ["d", "e", "x", "c"])], allow=sown, boolean=False, need_hits=True)
        flows(ctx, "copy", f, CallPred(r"std::make_unique$|" + FC.q.pattern, args={2: r"."}), {0: r"directory_", 1: par(f, 2) + r"\.path\(\).*baseName\(", 2: r"d_name"}, "data go from the source to the destination", allow=sown)
        for g in below(p, f, sown):
            for i, inf in g.calls():
                if last(inf["q"]) == "baseName":
                    a = expand(sym, g, sym.r(g, g.obj(i)))
                    ctx.ob("copy", f"{f.q}: the directory keeps its name", "directory_" in a, g.loc(i), a)
        flows(ctx, "copy", f, EMP, {0: r"elem|iter|second|local"}, "what was collected is queued", obj=par(f, 3), allow=sown)

    # 3. copying and removing one file
    for f in F("fdb5::FileCopy::execute"):
        flows(ctx, "copy", f, CallPred(r"DataHandle::(copyTo|saveInto)$"), {0: r"dest_|local:dest"}, "copies to the destination", obj=r"src_|local:src")
        for g in below(p, f):
            for i, x in enumerate(g.n):
                if x[0] == "new" and re.search(r"FileHandle::<ctor>$", x[2]["q"]):
                    a = sym.r(g, g.args(i)[0])
                    v = [y[2]["n"] for y in g.n if y[0] == "var" and y[3] and y[3][0] == i]
                    ctx.ob("copy", "fdb5::FileCopy: source and destination are those it was made for", a in ("this.src_", "this.dest_") and (not v or a[5:-1] in v[0]), g.loc(i), f"{v} = {a}")
    for f in F("fdb5::FileCopy::cleanup"):
        for i, inf in f.calls():
            if re.search(r"::(unlink|rmdir)$", inf["q"]):
                ctx.ob("copy", "fdb5::FileCopy::cleanup removes only the source", sym.r(f, f.obj(i)) == "this.src_", f.loc(i), sym.r(f, f.obj(i)))

    # 4. the tool
    EXE, CLEAN, SYNC = CallPred(r"FileCopy::execute$"), CallPred(r"FileCopy::cleanup$"), CallPred(r"::synchronise$")
    T = "fdb5::tools::MoveProducer"
    for f in F(T + "::finalise"):
        town = lambda g: g.cls == T or not g.cls
        pathfacts(ctx, "tool", f, {"k": r"^this\.keep_$"}, "the source is removed only once everything was copied, and only if it is not to be kept", events={"e": [CallPred(EXE.q.pattern, obj="last_")], "s": [SYNC]},
                  at=[(CLEAN, lambda d, fr, i: None if d.get("e") and d.get("s") and d.get("k") is False else "the source is removed too early or though it is to be kept"),
                      (EXE, lambda d, fr, i: None if d.get("s") else "the table of contents is published before the workers are done")],
                  check=lambda o, d: None if d.get("e") else "the table of contents is not published", allow=town, need_hits=True)
        ordered(ctx, "tool", f, [CallPred(CLEAN.q.pattern, obj="last_")], [CallPred(CLEAN.q.pattern, obj=r"^(?!.*last_)")], "the source's table of contents goes first", allow=town)
    for f in F(T + "::produce"):
        town = lambda g: g.cls == T or not g.cls
        SAVE = CallPred(r"FileCopy::operator=$", obj="last_")
        pathfacts(ctx, "tool", f, {"y": r"\.(sync\(\)|sync_)$", "n": r"next\("}, "everything but the table of contents goes to the workers and is remembered", events={"enc": [CallPred(r"FileCopy::encode$"), CallPred(r"operator<<$")], "lst": [CallPred(r"(push_back|emplace_back)$", obj="list_")]},
                  aevents={"last": [AssignPred(r"last_$")]} , allow=town,
                  at=[(CallPred(r"FileCopy::encode$"), lambda d, fr, i: None if d.get("y") is False else "the table of contents is copied like any other file")],
                  check=lambda o, d: None if d.get("n") is False else ("an element is handed out as if there were none, or not remembered" if d.get("y") is False and not (o and d.get("enc") and d.get("lst")) else "the table of contents is handed to a worker" if d.get("y") and o else None))
    for f in F("fdb5::tools::MoveWorker::consume"):
        pathfacts(ctx, "tool", f, {}, "a worker copies what it is given", events={"e": [EXE]}, check=lambda o, d: None if d.get("e") else "an element is not copied", allow=lambda g: g.cls == f.cls or not g.cls)
    for f in F("fdb5::tools::MoveLoner::run"):
        PUSH, WAIT = CallPred(r"ThreadPool::push$"), CallPred(r"ThreadPool::(wait|waitForThreads)$")
        near2 = lambda g: g.cls == f.cls or not g.cls
        pathfacts(ctx, "tool", f, {}, "the copies are done before the tool goes on", events={"w": [WAIT]}, kills=[([PUSH], ["w"])], check=lambda o, d: None if d.get("w") else "the tool goes on while files are being copied", allow=near2)
        pathfacts(ctx, "tool", f, {"p": r"\.produce\("}, "everything produced is copied", events={"c": [PUSH]}, kills=[([CallPred(r"::produce$")], ["c", "p"])],
                  at=[(CallPred(r"::produce$"), lambda d, fr, i: "an element is not copied" if d.get("p") and not d.get("c") else None)], allow=near2, need_hits=True)
