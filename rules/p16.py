"""Static decision of "a remote failure reaches the caller, who never waits for ever": what the server answers when serving a request fails, who is
woken on the client when an error or the end of the connection arrives, and that nothing unfinished is reported as finished."""
import re

from vt.lib import AssignPred, CallPred, below, case_enums, expand, flows, last, must_pass, on_case, ordered, par, pathfacts, tagfacts
from vt.prog import Sym

TECHNIQUE = "path facts over the interprocedural CFG including exceptional paths (every handler of exceptions answers, wakes or passes on), completeness of the loops that wake waiters, guards of completion"
ASSUMPTIONS = ["eckit::Queue::interrupt wakes every thread waiting in pop", "a promise that is set wakes those that wait for its future", "TCP reports a lost connection"]
FLOORS = {"answer": 10, "wake": 8, "finish": 4, "swallow": 8}

R = "fdb5::remote::"
SH, CH, SC = R + "StoreHandler", R + "CatalogueHandler", R + "ServerConnection"
CC, CL = R + "ClientConnection", R + "Client"
NEXT = [CallPred(r"iterator\w*::operator\+\+$"), AssignPred(r"^local:", None, ("++", "p++", "+="))]
ERR = r"Connection::error$"
WR = r"(Connection|ServerConnection)::write$"


def catches(f):
    return [i for i, x in enumerate(f.n) if x[0] == "catch"]


def ctype(f, c):
    t = (f.n[c][2] or [""])[0] or ""
    return "" if t == "..." else t


def in_catch(f, i):
    for a in f.ancestors(i):
        if f.n[a][0] == "catch":
            return a
    return None


def run(ctx):
    p = ctx.p
    F = p.find
    sym = Sym(p)
    server = lambda g: g.cls in (SH, CH, SC) or not g.cls

    # 1. the server answers each request once, with an error if it could not be served
    handlers = sorted({g.id: g for n in ("handleControl", "handleData") for c in (SC, SH, CH) for g in p.byq.get(f"{c}::{n}", []) if g.blocks}.values(), key=lambda g: g.id)
    ctx.need(len(handlers) >= 4, "message handlers of the servers are missing")
    for f in handlers:
        k = {x[0]: j for j, x in enumerate(f.params)}
        cid, rid = (par(f, 1), par(f, 2))
        # what reports the failure names the request
        e = [(g, i) for g in [f] for i, inf in g.calls() if re.search(ERR, inf["q"]) and in_catch(g, i) is not None]
        for g, i in e:
            a = [expand(sym, g, sym.r(g, x)) for x in g.args(i)]
            ctx.ob("answer", f"{f.q}: the error names the request that failed ({ctype(g, in_catch(g, i)) or '...'}, {len(f.params)} arguments)", len(a) == 3 and bool(re.search(cid, a[1])) and bool(re.search(rid, a[2])), g.loc(i), str(a))
        REP = [CallPred(WR, args={0: r"Message::\w+|^\d+$|^param:"})]
        ERRS = [CallPred(ERR)]
        own = lambda g, f=f: g.cls == f.cls or not g.cls

        def check(o, d):
            if re.search(r"Handled::Replied$", o):
                return None if d.get("r") or d.get("e") else "a request may remain without an answer"
            if re.search(r"Handled::(Yes\w*|No)$", o) and d.get("e"):
                return "a request that failed is reported as served"

        pathfacts(ctx, "answer", f, {}, f"a request that is not served is answered with an error ({len(f.params)} arguments)", events={"r": [*REP, CallPred(r"Queue::(emplace|push)$", obj="archiveQueue_")], "e": ERRS}, check=check, boolean=False, allow=own, exc=True)
        types = [ctype(f, c) for c in catches(f)]
        everything = [c for c in catches(f) if not ctype(f, c)]
        ctx.ob("answer", f"{f.q}: no exception escapes ({len(f.params)} arguments)", bool(everything), f.loc(), str(types))
    for f in F(SC + "::handle"):
        tr, cs = tagfacts("fdb5::remote::Handled", ["Yes", "Replied", "No", "YesAddArchiveListener", "YesAddReadListener"], r".")
        RCV = CallPred(WR, args={0: r"Message::Received$"})
        READ = CallPred(r"Connection::readControl$|ServerConnection::readControl$")
        pathfacts(ctx, "answer", f, tr, "success is reported for what was served, and a refusal for what was not understood", cases=cs, exclusive=[list(tr)], events={"w": [RCV], "e": [CallPred(ERR)], "c": [CallPred(r"::handle(Control|Data)$")]}, boolean=False, allow=lambda g: g.cls == SC and g.name not in ("handleControl", "handleData", "listeningThreadLoopData", "initialiseConnections", "teardown") or not g.cls,
                  kills=[([READ], [*tr, "w", "e", "c"])], need_hits=True,
                  at=[(RCV, lambda d, fr, i: None if d.get("c") and not d.get("Replied") and not d.get("No") else "success is reported for a request that was not served"),
                      (READ, lambda d, fr, i: "a request that was not understood is not answered" if d.get("No") and not d.get("e") else "success is not reported" if any(d.get(y) for y in ("Yes", "YesAddArchiveListener", "YesAddReadListener")) and not d.get("w") else None)])
    # 2. answers given by workers
    DONE = CallPred(WR, args={0: r"Message::Complete$"})
    BLOB = CallPred(WR, args={0: r"Message::Blob$"})
    workers = sorted((g for g in p.fns.values() if g.blocks and g.file.startswith("fdb5/remote/server/") and any(re.search(WR, inf["q"]) and g.args(i) and sym.r(g, g.args(i)[0]).endswith("Message::Complete") for i, inf in g.calls())), key=lambda g: g.id)
    ctx.need(len(workers) >= 2, "workers that stream results are missing")
    for g in workers:
        one = lambda h, g=g: h.cls == g.cls and h.name != "handleApiCall" or not h.cls

        def after(o, d):
            return None if d.get("d") or d.get("e") else "a client may wait for ever for the end of a stream"

        pathfacts(ctx, "answer", g, {"more": r"\.next\(|\bread\("}, f"a stream ends with completion or an error ({g.name})", events={"d": [DONE], "e": [CallPred(ERR)]}, boolean=False, allow=one, exc=True, check=after,
                  at=[(CallPred(ERR), lambda d, fr, i: "an error follows completion" if False else None)])
        for i, inf in g.calls():
            if DONE.q.search(inf["q"]) and g.args(i) and sym.r(g, g.args(i)[0]).endswith("Message::Complete"):
                ctx.ob("finish", f"{g.q}: a stream that failed is not reported as complete", in_catch(g, i) is None, g.loc(i))
        ordered(ctx, "finish", g, [], [DONE], "a stream is complete only when nothing is left", sanction=[(r"\.next\(", False), (r"^0==.*\bread\(|\bread\(.*==0$", True), (r"^0<.*\bread\(", False)], allow=one)
    # 3. failures of an archival reach the client that waits for it
    for f in F(SH + "::archiveBlob"):
        own = lambda g: g.cls == SH or not g.cls
        AR = CallPred(r"^fdb5::\w*Store::archive$")
        LOC = CallPred(WR, args={0: r"Message::Store$"})
        pathfacts(ctx, "answer", f, {}, "a field that is not stored is reported to the client that sent it", events={"a": [AR], "e": [CallPred(ERR, args={1: par(f, 0), 2: par(f, 1)})], "l": [LOC]}, boolean=False, allow=own, exc=True,
                  check=lambda o, d: None if d.get("e") or d.get("l") else "the client is not told about the outcome", at=[(LOC, lambda d, fr, i: None if d.get("a") and not d.get("e") else "a location is sent for a field that was not stored")], need_hits=True)
        flows(ctx, "answer", f, LOC, {2: par(f, 0), 3: par(f, 1)}, "the location answers the request that sent the field", allow=own)
        got = [c for g in below(p, f, own) for i, inf in g.calls() if AR.q.search(inf["q"]) for c in [next((a for a in g.ancestors(i) if g.n[a][0] == "try"), None)]]
        ctx.ob("answer", f"{f.q}: a failure to store does not stop the archival of the others", any(c is not None for c in got), f.loc())
    for f in F(CH + "::archiveBlob"):
        own = lambda g: g.cls == CH or not g.cls
        AR = CallPred(r"^fdb5::\w*Catalogue\w*::archive$")
        CNT = AssignPred(r"locationsArchived$", None, ("++", "p++", "+=", "="))
        pathfacts(ctx, "answer", f, {}, "an entry that is not archived counts, and its failure is kept for the flush", events={"a": [AR]}, aevents={"n": [CNT], "k": [AssignPred(r"\.(archivalFailure|\w*[fF]ail\w*|\w*[eE]xception\w*|\w*[eE]rror\w*)$", None, ("=",))]}, boolean=False, allow=own,
                  check=lambda o, d: None if d.get("n") else "a flush waits for an entry that failed")
        try_ = [c for g in below(p, f, own) for i, inf in g.calls() if AR.q.search(inf["q"]) for c in [next((a for a in g.ancestors(i) if g.n[a][0] == "try"), None)]]
        ctx.ob("answer", f"{f.q}: a failure to archive an entry does not stop the archival of the others", any(c is not None for c in try_), f.loc())
    for f in F(CH + "::flush"):
        own = lambda g: g.cls == CH or not g.cls
        FL = CallPred(r"^fdb5::\w*Catalogue\w*::flush$")
        pathfacts(ctx, "answer", f, {"x": r"[fF]ail|[eE]xception_ptr|[eE]rror|^local:\w+$"}, "a flush fails if an entry that it covers could not be archived", boolean=False, allow=own, at=[(FL, lambda d, fr, i: None if d.get("x") is False else "entries that failed are forgotten")], need_hits=True)
        WAIT = CallPred(r"^std::(future|shared_future|__basic_future)::(wait|get)$")
        ordered(ctx, "answer", f, [WAIT], [FL], "a flush waits for the entries it covers", allow=own)

    # 4. the client: errors wake those that wait
    for n in ("listeningControlThreadLoop", "listeningDataThreadLoop"):
        for f in F(f"{CC}::{n}"):
            own = lambda g: g.cls == CC or not g.cls
            HCE = CallPred(CC + "::handleConnectionError$")
            OK = CallPred(r"^std::promise::set_value$")
            BAD = CallPred(r"^std::promise::set_exception(_at_thread_exit)?$")
            tr = {"E": r"Message::Error==|==.*Message::Error$"}
            nohce = lambda g: own(g) and g.name not in ("handleConnectionError", "closeConnection", "failPendingRequests", "teardown")
            FOUND = r"promises_\.find\(.*==end\(|^end\(this\.promises_\)=="
            pathfacts(ctx, "wake", f, {**tr, "nf": FOUND}, "an error fails the request that it answers", events={"x": [BAD], "v": [OK]}, boolean=False, allow=nohce,
                      kills=[([CallPred(r"Connection::read(Control|Data)?$")], ["E", "nf", "x", "v"])],
                      at=[(OK, lambda d, fr, i: None if d.get("E") is False else "an error answers a request as if it were its result"), (CallPred(r"Connection::read(Control|Data)?$"), lambda d, fr, i: "a request whose error arrived keeps waiting" if d.get("E") and d.get("nf") is False and not d.get("x") else None),
                          (CallPred(CL + "::handle$"), lambda d, fr, i: None if d.get("nf") is True or d.get("E") is False else "an error is handed on although a request waits for it" if d.get("nf") is False else "whether a request waits for the error is not looked up")])
            ctx.ob("wake", f"{f.q}: no exception escapes the thread", any(not ctype(f, c) for c in catches(f)), f.loc())
            pathfacts(ctx, "wake", f, {"u": r"Client::handle\(|\.handle\(|local:handled"}, "the thread ends only by a regular end of the connection or by failing everything", events={"h": [HCE]}, boolean=False, allow=nohce, exc=True,
                      check=lambda o, d: None) if False else None
            for c in catches(f):
                body = [i for i, inf in f.calls() if in_catch(f, i) == c and HCE.q.search(inf["q"])]
                ctx.ob("wake", f"{f.q}: an exception ends the connection and fails everything", bool(body), f.loc(c))
            # the text of the error is the server's
            for g in below(p, f, nohce):
                for i, inf in g.calls():
                    if BAD.q.search(inf["q"]):
                        a = expand(sym, g, sym.r(g, g.args(i)[0]))
                        ctx.ob("wake", f"{f.q}: the explanation of the server is passed on", "payload" in a or "readControl" in a or "readData" in a or "Connection::read" in a, g.loc(i), a[:200])
    for f in F(CC + "::listeningDataThreadLoop"):
        own = lambda g: g.cls == CC and g.name not in ("handleConnectionError", "closeConnection") or not g.cls
        CLO = CallPred(CC + "::closeConnection$")
        pathfacts(ctx, "wake", f, {"x": r"Message::Exit==|==.*Message::Exit$"}, "the end of the connection is told to every client", events={"c": [CLO]}, boolean=False, allow=own, check=lambda o, d: None if d.get("c") or not d.get("x") else "the thread ends without telling its clients")
    for f in F(CC + "::handleConnectionError"):
        own = lambda g: g.cls == CC and g.name not in ("closeConnection", "failPendingRequests", "teardown") or not g.cls
        for rx, what in ((CC + "::failPendingRequests$|std::promise::set_exception$", "every request that waits fails"), (CC + r"::closeConnection$|Client::closeConnection$", "every client is told")):
            must_pass(ctx, "wake", f, [CallPred(rx)], what="when the connection breaks " + what, allow=own)
    for f in F(CC + "::failPendingRequests"):
        SE = CallPred(r"^std::promise::set_exception$")
        must_pass(ctx, "wake", f, [SE], what="every request that waits fails", forall=re.compile("promises_"))
        must_pass(ctx, "wake", f, [CallPred(r"^std::(map|unordered_map)::clear$", obj="promises_")], what="failed requests are forgotten")
        ordered(ctx, "wake", f, [CallPred(r"^std::(lock_guard|unique_lock|scoped_lock)::<ctor>$")], [SE], "requests are failed under their lock")
        pathfacts(ctx, "wake", f, {}, "no request is added once the others were failed", aevents={"v": [AssignPred(r"isValid_$", r"0|false", ("=",))]}, events={"v": [CallPred(r"^std::(atomic|__atomic_base)::(operator=|store|exchange)$", obj="isValid_")]}, boolean=False, check=lambda o, d: None if d.get("v") else "the connection stays valid though nobody listens")
    for f in F(CC + "::controlWrite"):
        own = lambda g: g.cls in (CC, R + "Connection") and g.name != "write" or not g.cls
        EMP = CallPred(r"^std::(map|unordered_map)::(emplace|insert|try_emplace|operator\[\]|insert_or_assign)$", obj="promises_")
        WRITE = CallPred(WR)
        pathfacts(ctx, "wake", f, {"v": r"isValid_|valid\(\)"}, "a request is sent only over a valid connection, and someone will fulfil it", events={"k": [CallPred(r"^std::(lock_guard|unique_lock|scoped_lock)::<ctor>$")], "e": [EMP]}, boolean=False, allow=own,
                  at=[(EMP, lambda d, fr, i: None if d.get("v") and d.get("k") else "a request is added to a connection that may have ended"), (WRITE, lambda d, fr, i: None if d.get("e") else "a request is sent before anyone waits for its answer")], need_hits=True)
        v = [(g, i) for g in below(p, f, own) for i, inf in g.calls() if inf["q"].endswith("Connection::valid") or last(inf["q"]) in ("load", "operator bool") and g.obj(i) is not None and "isValid_" in sym.r(g, g.obj(i))]
        k = [(g, i) for g in below(p, f, own) for i, inf in g.calls() if re.search(r"^std::(lock_guard|unique_lock|scoped_lock)::<ctor>$", inf["q"])]
        ordered(ctx, "wake", f, [CallPred(r"^std::(lock_guard|unique_lock|scoped_lock)::<ctor>$")], [CallPred(r"Connection::valid$")], "validity is decided under the lock of the requests", allow=lambda g: g.cls == CC or not g.cls)
        GF = CallPred(r"^std::promise::get_future$")
        ordered(ctx, "wake", f, [GF], [WRITE], "the future is taken before the request is sent", allow=own)
    for f in F(CC + "::closeConnection"):
        must_pass(ctx, "wake", f, [CallPred(CL + "::closeConnection$")], what="every client is told", forall=re.compile("clients_"))
    for f in F(CC + "::dataWriteThreadLoop"):
        INT = CallPred(r"^eckit::Queue::interrupt$")
        for c in catches(f):
            body = [i for i, inf in f.calls() if in_catch(f, i) == c and (INT.q.search(inf["q"]) or inf["q"].endswith("::handleConnectionError"))]
            ctx.ob("wake", f"{f.q}: a failing transfer is reported to those that archive and to those that wait", len({f.calls and f.n[i][2]["q"] for i in body}) >= 2, f.loc(c))
            ctx.ob("wake", f"{f.q}: no exception escapes the thread", not any(f.n[i][0] == "throw" for i in range(len(f.n)) if in_catch(f, i) == c), f.loc(c))
    # clients that let somebody wait
    waiting = re.compile(r"Queue<|std::promise<|Locations\b|MessageQueue")
    subs = sorted(p.subclasses(CL))
    ctx.need(len(subs) >= 3, "clients are missing")
    for c in subs:
        ms = [m for m in (p.classes.get(c) or {}).get("fields", []) if waiting.search(" ".join(str(y) for y in m))]
        if not ms:
            continue
        gs = [g for g in p.byq.get(c + "::closeConnection", []) if g.blocks]
        ctx.ob("wake", f"{c}: is woken when the connection ends", bool(gs), str((p.classes[c].get("file"), p.classes[c].get("line"))), str(ms))
        for f in gs:
            for m in ms:
                name = m[0] if isinstance(m, (list, tuple)) else m
                if "Locations" in " ".join(str(y) for y in m):
                    must_pass(ctx, "wake", f, [CallPred(r"Locations::\w+$", obj=name)], what=f"archivals that wait ({name}) fail", allow=lambda g, c=c: g.cls == c or not g.cls)
                else:
                    must_pass(ctx, "wake", f, [CallPred(r"Queue::interrupt$")], what=f"readers that wait ({name}) fail", forall=re.compile(name), allow=lambda g, c=c: g.cls == c or not g.cls, sanction=[(r"\.closed\(\)", True), (r"closed_|interrupt_", True)])
        # errors
        for f in [g for g in p.byq.get(c + "::handle", []) if g.blocks]:
            own = lambda g, c=c: g.cls == c or g.cls.endswith("Locations") or not g.cls
            tr, cs = tagfacts("fdb5::remote::Message", ["Error", "Complete", "Blob"], par(f, 0) + "|local:")
            INT = CallPred(r"Queue::interrupt$")
            FAIL = CallPred(r"Locations::(fail\w*)$")
            CLOSE = CallPred(r"Queue::close$")
            tr2 = {**tr, "known": r"^end\(.*[qQ]ueues_\)==|[qQ]ueues_\.(count|contains)\(", "loc": r"Locations::fail\(|locations_\.fail\(|^end\(.*locations_\)=="}

            def check(o, d):
                if d.get("Error") and o in ("true", "1") and not d.get("w") and d.get("loc") is not True and d.get("known") is not True and not d.get("f"):
                    return "an error is taken as handled though those that wait for it are not woken"
                if d.get("Complete") and o in ("true", "1") and not d.get("c"):
                    return "completion is taken as handled though those that wait for it are not told"

            cs = dict(cs)
            pathfacts(ctx, "wake", f, tr2, f"an error wakes whoever waits for the answer ({len(f.params)} arguments)", cases=cs, exclusive=[list(tr)], events={"w": [INT], "c": [CLOSE, CallPred(r"Queue::(emplace|push)$", args={0: r"param:message|Message::Complete"})], "f": [CallPred(r"^std::promise::set_exception$")]}, boolean=False, allow=lambda g, c=c: g.cls == c or not g.cls, check=check,
                      at=[(CLOSE, lambda d, fr, i: None if d.get("Complete") else "a stream is closed though it is not complete")])
            if len(f.params) == 3:
                def told(d, fr, i, f=f):
                    a = sym.r(fr.fn, fr.fn.args(i)[0], fr.env)
                    while fr:
                        a = expand(sym, fr.fn, a)
                        fr = fr.up
                    return None if "param:" + f.params[-1][0] in a or "payload" in a else "the explanation is lost: " + a[:150]
                pathfacts(ctx, "wake", f, {}, "the explanation of the server is passed on", boolean=False, allow=lambda g, c=c: g.cls == c or not g.cls, at=[(INT, told)])
    # 5. archivals: a location or a failure
    LO = R + "Locations"
    for f in F(LO + "::location") + p.byq.get(LO + "::fail", []) + p.byq.get(LO + "::failAll", []):
        own = lambda g: g.cls == LO or not g.cls
        SV = CallPred(r"^std::promise::set_(value|exception)$")
        pathfacts(ctx, "wake", f, {"eq": r"fieldsArchived_==this\.locationsReceived_|locationsReceived_==this\.fieldsArchived_|^empty\(this\.locations_\)", "wt": r"completionRequested_|archivalCompleted_\.valid\(\)", "nf": r"^end\(this\.locations_\)==|==end\(this\.locations_\)"}, "the last one wakes the flush that waits", events={"s": [SV]}, boolean=False, allow=own,
                  check=lambda o, d: "the flush is not woken" if d.get("nf") is not True and d.get("eq") is True and d.get("wt") is True and not d.get("s") else "whether a flush waits is not considered" if d.get("nf") is not True and not d.get("s") and "eq" not in d and "wt" not in d else None,
                  at=[(SV, lambda d, fr, i: None if d.get("eq") is not False and d.get("wt") else "a flush is woken though fields are outstanding or nobody waits")])
        if f.name != "location":
            pathfacts(ctx, "wake", f, {"nf": r"^end\(this\.locations_\)==|==end\(this\.locations_\)"}, "the failure is remembered", aevents={"k": [AssignPred(r"this\.\w+$", par(f, len(f.params) - 1), ("=",))]}, events={"k": [CallPred(r"exception_ptr::operator=$", args={0: par(f, len(f.params) - 1)})]}, boolean=False, allow=own,
                      check=lambda o, d: None if d.get("k") or d.get("nf") else "the failure is forgotten")
    for f in F(R + "RemoteStore::flush"):
        own = lambda g: g.cls in (R + "RemoteStore", LO) or not g.cls
        FL = CallPred(r"Client::controlWrite\w*Response$", args={0: r"Message::Flush$"})
        tx = {"x": r"failure|exception_ptr|[eE]xception", "none": r"(?i)^0==.*archived"}
        pathfacts(ctx, "finish", f, tx, "a flush fails if a field could not be stored", events={"f": [FL], "r": [CallPred(r"^std::(rethrow_exception|exchange|swap|__exception_ptr::swap)$")]}, boolean=False, allow=own, at=[(FL, lambda d, fr, i: None if d.get("x") is False else "fields that were not stored are forgotten")], need_hits=True,
                  check=lambda o, d: None if d.get("x") is False else "fields that were not stored are forgotten")
        ordered(ctx, "finish", f, [CallPred(LO + "::wait$")], [FL], "a flush waits for every field", sanction=[(r"complete\(\)", True)], allow=lambda g: g.cls == R + "RemoteStore" or not g.cls)
        pathfacts(ctx, "finish", f, {"none": r"(?i)^0==.*archived"}, "a flush returns once the server has flushed", events={"f": [FL]}, boolean=False, allow=lambda g: g.cls == R + "RemoteStore" or not g.cls, check=lambda o, d: None if d.get("f") or d.get("none") else "success is reported before the server has flushed")
    for f in F(R + "RemoteCatalogue::flush"):
        FL = CallPred(r"Client::controlWrite\w*Response$", args={0: r"Message::Flush$"})
        pathfacts(ctx, "finish", f, {"none": r"^0==this\.numLocations_|^0<this\.numLocations_|numLocations_==0"}, "a flush returns once the server has flushed", events={"f": [FL]}, boolean=False, allow=lambda g: g.cls == f.cls or not g.cls, check=lambda o, d: None if d.get("f") or "none" in d else "success is reported before the server has flushed")
    # 6. requests wait for their answers
    for n in ("controlWriteCheckResponse", "controlWriteReadResponse"):
        for f in F(f"{CL}::{n}"):
            own = lambda g: g.cls == CL or not g.cls
            must_pass(ctx, "finish", f, [CallPred(r"^std::(future|shared_future)::get$")], what="waits for the answer", allow=own)
            ordered(ctx, "finish", f, [CallPred(CC + "::controlWrite$")], [CallPred(r"^std::(future|shared_future)::get$")], "the answer is that of this request", allow=own)
    # 7. a stream of data is complete only when the server says so
    for f in sorted((g for g in p.fns.values() if g.blocks and g.name == "read" and g.file.startswith("fdb5/remote/client/") and "DataHandle" in g.cls), key=lambda g: g.id):
        own = lambda g: g.cls == f.cls or not g.cls
        tr = {"E": r"Message::Error==|==.*Message::Error$", "C": r"Message::Complete==|==.*Message::Complete$", "B": r"Message::Blob==|==.*Message::Blob$"}
        SETC = AssignPred(r"complete_$", None, ("=",))
        POP = CallPred(r"Queue::pop$")
        pathfacts(ctx, "finish", f, tr, "reading ends when the server says that it is complete", events={"p": [POP]}, boolean=False, allow=own, kills=[([POP], list(tr))], exclusive=[["E", "C", "B"]],
                  at=[(SETC, lambda d, fr, i: None if d.get("C") else "reading ends though the server has not said that it is complete"), (CallPred(r"bufferRead$|memcpy$"), lambda d, fr, i: "an error is read as data" if d.get("p") and d.get("B") is not True and "B" in d else None)], need_hits=True)
    # 8. no exception is swallowed on the way
    EXEMPT = {R + "Connection::teardown", CC + "::remove", CC + "::connect", "FDBForker::run", R + "FdbServerBase::run", R + "FdbServer::run", CC + "::handleConnectionError", SC + "::initialiseConnections", SC + "::handleException"}
    PASS = re.compile(ERR + r"|Queue::interrupt$|::handleConnectionError$|set_exception$|std::current_exception$|std::rethrow_exception$|::fail\w*$")
    n = 0
    for f in sorted((g for g in p.fns.values() if g.blocks and (g.file.startswith(("fdb5/remote/", "fdb5/api/helpers/APIIterator", "fdb5/api/RemoteFDB")))), key=lambda g: g.id):
        fam = p.family(f)[-1] if p.family(f) else f
        for c in catches(f):
            t = ctype(f, c) or "..."
            if fam.q in EXEMPT or "Cancellation" in t or "FdbServer" in f.file and "remote/FdbServer" in f.file:
                continue
            ok = any(in_catch(f, i) == c and (x[0] == "throw" or x[0] == "call" and (PASS.search(x[2]["q"]) or any(PASS.search(y["q"]) for g in p.fns.values() if g.id == x[2].get("id") for _, y in g.calls()))) for i, x in enumerate(f.n))
            n += 1
            ctx.ob("swallow", f"{f.q}: an exception ({t}) is answered, passed on or kept", ok, f.loc(c))
