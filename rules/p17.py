"""Static decision of "messages are framed whole and validated": every transfer on a socket is complete or an error, a message is sent in one piece
under the lock of its socket and announces its length, and a received message is returned only after its marker, version, channel, length
and end marker were checked."""
import re

from vt.lib import AssignPred, CallPred, below, flows, last, must_pass, never_after, ordered, par, pathfacts, stores
from vt.locks import TOP, Locks
from vt.prog import Sym

TECHNIQUE = "path facts of the transfer functions (full length or error), must-pass and order of the parts of a message, lockset at every socket transfer, path facts of the validation of received messages, provenance of the announced length"
ASSUMPTIONS = ["eckit's TCPSocket::read and write report the number of bytes transferred", "a message is smaller than 4 GiB, as its length field says"]
FLOORS = {"transfer": 2, "whole": 4, "locked": 1, "announce": 3, "validate": 6, "channel": 2}

C = "fdb5::remote::Connection"
SOCK = re.compile(r"^eckit::net::\w*(Socket|Client|Connection)::(read|write)$")


def run(ctx):
    p = ctx.p
    sym = Sym(p)
    L = Locks(p)
    fns = [f for f in p.fns.values() if f.file.startswith("fdb5/") and not f.file.startswith("fdb5/tools/")]

    # 1. what the socket transfers is counted
    low = {}
    for f in fns:
        for i, inf in f.calls():
            if SOCK.match(inf["q"]) and len(f.args(i)) >= 2:
                low.setdefault(f.id, []).append(i)
    for k, calls in low.items():
        f = p.fns[k]
        for i in calls:
            ln = sym.r(f, f.args(i)[1])
            want = re.escape(ln)
            rx = rf"^(?:{want}==.*\.(?:read|write)\(.*\)|.*\.(?:read|write)\(.*\)=={want})$"
            pathfacts(ctx, "transfer", f, {"full": rx}, "a transfer of fewer bytes than asked for does not count as done", events={"t": [CallPred(SOCK.pattern)]}, allow=lambda g: g.cls == f.cls, need_hits=True,
                      check=lambda o, d: "returns success although the number of bytes transferred was not found to be the number asked for" if o is not False and d.get("t") and not d.get("full") else None)
    own = lambda g: g.cls == C or (not g.cls and g.file.startswith("fdb5/remote/Connection"))
    SW, SR = r"^eckit::net::\w*(Socket|Client|Connection)::write$", r"^eckit::net::\w*(Socket|Client|Connection)::read$"
    for f in p.find(C + "::write"):
        if len(f.params) != 5:
            continue
        PL = par(f, 4)
        bare = PL.strip("^$")
        hdr, pay, end = r"^&?local:", rf"^elem\({bare}\)\.data$", r"MessageHeader::EndMarker"
        H = [CallPred(SW, args={0: hdr})]
        P = [CallPred(SW, args={0: pay, 1: rf"^elem\({bare}\)\.length$"})]
        E = [CallPred(SW, args={0: end, 1: r"markerBytes|^4$"})]
        flows(ctx, "whole", f, CallPred(SW), {0: rf"{hdr}|{pay}|{end}"}, "nothing but header, payloads and end marker is sent", allow=own)
        must_pass(ctx, "whole", f, H, what="a header is sent", allow=own)
        must_pass(ctx, "whole", f, E, what="an end marker is sent", allow=own)
        must_pass(ctx, "whole", f, P, forall=bare, what="every payload is sent", allow=own)
        ordered(ctx, "whole", f, H, P + E, "the header comes first", allow=own)
        never_after(ctx, "whole", f, E, H + P, "the end marker comes last", allow=own)
        # one lock around all of it
        parts = [i for i, inf in f.calls() if re.match(SW, inf["q"]) or any(own(t) and any(re.match(SW, y["q"]) for g in below(p, t, own) for _, y in g.calls()) for t in p.targets(inf))]
        hold = None
        for i in parts:
            g = {v for v, ms, _ in L.guards(f) if L.covers(f, v, i)}
            hold = g if hold is None else hold & g
        ctx.ob("locked", f"{f.q}: header, payload and end marker are sent under one lock", bool(hold), f.loc(parts[0]) if parts else f.loc(), f"{len(parts)} sending call(s)")
        lens = {}
        for g in below(p, f, own):
            for i, x in enumerate(g.n):
                if g is f and x[0] in ("new", "call") and x[2].get("q", "").startswith("fdb5::remote::MessageHeader") and len(g.args(i)) == 5:
                    lens[i] = [sym.r(g, a) for a in g.args(i)]
        ctx.ob("announce", f"{f.q}: the header carries the message, the channel, the client and the request it was given",
               any(all(re.search(par(f, k), a[k]) for k in range(4)) for a in lens.values()), f.loc(), str(list(lens.values())[:1]))
        # the length announced is the sum of the lengths
        lens = {}
        for i, x in enumerate(f.n):
            if x[0] in ("new", "call") and x[2].get("q", "").startswith("fdb5::remote::MessageHeader") and len(f.args(i)) == 5:
                lens[i] = [sym.r(f, a) for a in f.args(i)]
        for g in below(p, f, own):
            if g is f:
                continue
        ctx.ob("announce", f"{f.q}: the header carries the message, the channel, the client and the request it was given", any(re.search(par(f, 0), a[0]) and re.search(par(f, 1), a[1]) and re.search(par(f, 2), a[2]) and re.search(par(f, 3), a[3]) for a in lens.values()), f.loc(), str(list(lens.values())[:1]))
        for i, a in lens.items():
            loc = f.n[strip(f, f.args(i)[4])]
            if loc[0] == "ref" and loc[2][1] == "local":
                d = loc[2][2]
                ws = [(x[2], sym.r(f, x[3][1])) for x in f.n if x[0] == "assign" and f.n[strip(f, x[3][0])][0] == "ref" and f.n[strip(f, x[3][0])][2][2] == d]
                init = f.n[f.vars[d]][3]
                if not ws:
                    ctx.ob("announce", f"{f.q}: the length announced is the sum of the lengths of the payloads", bool(re.search(bare, a[4])), f.loc(i), a[4])
                    continue
                ok = all((op == "+=" and re.search(rf"^elem\({bare}\)\.length$", r)) or (op == "=" and re.search(rf"elem\({bare}\)\.length", r) and "local:" in r) for op, r in ws) and init and sym.r(f, init[0]) == "0"
                ctx.ob("announce", f"{f.q}: the length announced is the sum of the lengths of the payloads", bool(ok), f.loc(i), f"assigned {ws}")
                must_pass(ctx, "announce", f, [], assigns=[AssignPred(r"^local:", rf"elem\({bare}\)\.length", ("+=", "="))], forall=bare, what="every payload counts towards the length", allow=lambda g: False)
            else:
                ctx.ob("announce", f"{f.q}: the length announced is the sum of the lengths of the payloads", bool(re.search(par(f, 4), a[4])), f.loc(i), a[4])
    for f in p.byq.get("fdb5::remote::MessageHeader::<ctor>", []):
        if len(f.params) == 5:
            stores(ctx, "announce", f, {"payloadSize": par(f, 4), "requestID": par(f, 3), "message": par(f, 0), "clientID_": rf"(?=.*{par(f, 1)})(?=.*{par(f, 2)})"}, "each field of the header holds its argument")
    # every write on a socket happens with the lock of a channel
    for k, calls in low.items():
        f = p.fns[k]
        for i in calls:
            if last(f.n[i][2]["q"]) != "write":
                continue
            h = L.held(f, i, own=False)
            ok = h is not TOP and any("utex" in m for _, m in h)
            ctx.ob("locked", f"{f.q}: nothing is written to a socket without the lock of the connection", ok, f.loc(i), f"held: {sorted(m for _, m in h) if h else []}")

    # 2. a channel's socket goes with its lock
    sel = {}
    for f in p.fns.values():
        if f.cls == C and not f.parent_fn and f.d.get("ret") and re.search(r"(std::mutex|TCPSocket) &$", f.d["ret"]) and len(f.params) == 1 and f.blocks:
            got = {}

            def chk(o, d, got=got):
                got.setdefault((d.get("c"), d.get("s")), set()).add(str(o))
                return None
            pathfacts(ctx, "channel", f, {"c": f"^{par(f, 0)}$", "s": r"^this\.single_$"}, "selects the channel", boolean=False, check=chk)
            sel[f.q] = (f, got)
    for q, (f, got) in sel.items():
        bad = []
        for (c, s), outs in got.items():
            want = "control" if c or s else "data" if c is False and s is False else None
            for o in outs:
                if want is None or want not in o.lower() or ("data" if want == "control" else "control") in o.lower():
                    bad.append(f"control={c} single={s}: {o}")
        ctx.ob("channel", f"{q}: the data channel is used exactly if the connection has two and the message is not a control message", not bad, f.loc(), "; ".join(bad))
    for f in p.find(C + "::write"):
        if len(f.params) == 5:
            a = {}
            for i, inf in f.calls():
                for t in p.targets(inf):
                    if t.q in sel:
                        a.setdefault(t.q, set()).add(sym.r(f, f.args(i)[0]))
            ctx.ob("channel", f"{f.q}: socket and lock are those of the channel of the message", len(sel) < 2 or (len(a) >= 2 and all(re.search(par(f, 1), r) for s in a.values() for r in s)), f.loc(), str(a))

    # 3. what is received
    for name, flag in (("readControl", "1"), ("readData", "0")):
        for f in p.find(f"{C}::{name}"):
            hp = par(f, 0)
            tr = {"start": r"marker.*StartMarker|StartMarker.*marker", "end": r"operator==\(.*EndMarker|EndMarker.*==|==.*EndMarker", "version": r"version.*currentVersion|currentVersion.*version",
                  "single": r"^this\.single_$", "chan": r"clientID_&1", "fail": r"\.read\w*\(", "zero": rf"^0==.*payloadSize$|payloadSize==0$"}
            RH = CallPred(SR, args={0: rf"^&?{hp.strip('^$')}$"})
            RP = CallPred(SR, args={1: r"payloadSize$"})
            RT = CallPred(SR, args={0: r"^&?local:", 1: r"^\d+$|markerBytes"})

            def chk(o, d):
                if d.get("exit"):
                    return None
                if d.get("fail") is False:
                    return "a message is returned although a transfer was incomplete"
                for k, m in (("h", "no header was read"), ("start", "the start marker was not checked"), ("version", "the protocol version was not checked"), ("t", "no end marker was read"), ("end", "the end marker was not checked")):
                    if not d.get(k):
                        return "a message is returned although " + m
                if not d.get("single") and "chan" not in d:
                    return "a message is returned although its channel was not checked"
                if not d.get("zero") and not d.get("p"):
                    return "a message with a payload is returned without reading it"
                return None
            pathfacts(ctx, "validate", f, tr, "a message is returned only after it was checked", events={"h": [RH], "p": [RP], "t": [RT]}, aevents={"exit": [AssignPred(r"message$", r"Message::Exit$")]}, allow=own, boolean=False, check=chk, need_hits=True)
            flows(ctx, "validate", f, CallPred(SR), {0: rf"{hp}|^&?local:"}, "what is read is the header, the payload or the end marker", allow=own)
            ordered(ctx, "validate", f, [RH], [RP, RT], "the header is read first", allow=own)
            never_after(ctx, "validate", f, [RT], [RP, RH], "the end marker is read last", allow=own)
    # the outcome of each transfer that may be refused silently is looked at
    for f in fns:
        for i, inf in f.calls():
            for t in p.targets(inf):
                if t.id in low and t.d.get("ret") == "bool":
                    up = next(f.ancestors(i), None)
                    k = f.n[up][0] if up is not None else "block"
                    used = k in ("un", "bin", "cond", "return", "var", "assign", "call", "new") or k == "cast" and f.n[up][2].get("t", "") != "void" if not isinstance(f.n[up][2], str) or k != "cast" else f.n[up][2] != "void"
                    used = used or k in ("if", "while", "for", "do") and i in set(f.walk(f.n[up][3][0]))
                    ctx.ob("validate", f"{f.q}: the outcome of {last(t.q)} is looked at", used, f.loc(i), "" if used else "the result is dropped")


def strip(f, i):
    while f.n[i][0] in ("cast", "paren", "init") and f.n[i][3]:
        i = f.n[i][3][0]
    return i
