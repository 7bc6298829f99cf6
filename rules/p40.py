"""Static decision of "a server executes a remote wipe only as far as it authorised it": order of verification and use of wipe states in the
server handlers, provenance of what is deleted, lifetime of the states that are kept, what the signature covers."""
import re

from vt.lib import AssignPred, CallPred, below, expand, flows, last, must_pass, ordered, par, pathfacts, result_checked
from vt.prog import Sym

TECHNIQUE = "order and guards of signature verification and use over the interprocedural CFG, provenance of deleted items, lifetime of kept wipe states, coverage of the signature"
ASSUMPTIONS = ["the hash used as signature is hard to forge without the secret", "the secret is kept"]
FLOORS = {"verify": 4, "use": 6, "sign": 4}

SH, CH = "fdb5::remote::StoreHandler", "fdb5::remote::CatalogueHandler"
DO = r"(doWipeURIs|doWipeUnknowns|doUnsafeFullWipe|doWipeEmptyDatabase|maskIndexEntries)$"
ST = r"^fdb5::(remote::|Toc|Daos|Fam)?(Remote)?Store::"
CA = r"^fdb5::(remote::|Toc|Daos|Fam)?(Remote)?Catalogue(Reader|Writer|Impl)?::"
NEXT = [CallPred(r"iterator\w*::operator\+\+$"), AssignPred(r"^local:", None, ("++", "p++", "+="))]
INS = r"^std::(map|unordered_map)::(insert|emplace|try_emplace|insert_or_assign|emplace_hint|operator\[\])$"


def run(ctx):
    p = ctx.p
    F = p.find
    sym = Sym(p)

    # 1. a state is used only once its signature has been verified
    VALID = r"\.validSignature\(|\.sig_==.*hash\(|hash\(.*==.*sig_"
    SEC = r"^empty\(|\.empty\(\)|\.size\(\)|\.length\(\)"
    FIN = CallPred(ST + "finaliseWipeState$")
    own = lambda g: g.cls == SH or not g.cls
    entries = [f for f in p.fns.values() if f.cls == SH and f.kind == "method" and f.blocks and any(FIN.quick(inf) for g in below(p, f, own) for _, inf in g.calls()) and f.name not in ("handleControl", "handleData")]
    entries = [f for f in entries if not any(f.id in p.callees(g.id) for g in entries if g is not f)]
    ctx.need(bool(entries), "no method of the store server prepares a wipe")
    for f in entries:
        def at(d, fr, i):
            if d.get("v") is not True:
                return "a wipe state is used before its signature is verified"

        KEEP = CallPred(INS, obj=r"wipesInProgress_")
        WRITE = CallPred(r"Connection::write$|ServerConnection::write$", args={0: r"Message::Wipe\b|^\d+$"})
        pathfacts(ctx, "verify", f, {"v": VALID}, "nothing is prepared, answered or kept unless the signature is valid", at=[(FIN, at), (KEEP, at), (WRITE, at), (CallPred(ST + DO), at)], boolean=False, allow=own, need_hits=True)
        ordered(ctx, "verify", f, [], [FIN, KEEP], "an empty secret is refused", sanction=[(r"^empty\(.*$", False), (r"^0==.*\.(size|length)\(\)$", False), (r"^0<.*(size|length)\(\)$", True)], allow=own)
        H = CallPred(r"StoreWipeState::hash$")
        flows(ctx, "verify", f, CallPred(r"Signature::validSignature$"), {0: r"\.hash\(|hash"}, "the signature of the state received is compared with its own hash", obj=r"signature", allow=own)
        for g in below(p, f, own):
            for i, inf in g.calls():
                if last(inf["q"]) != "validSignature":
                    continue
                o = expand(sym, g, sym.r(g, g.obj(i)))
                a = expand(sym, g, sym.r(g, g.args(i)[0]))
                base = re.sub(r"\.?(signature\(\)|signature_)$", "", o)
                ctx.ob("verify", f"{g.q}: the signature is compared with the hash of the same state", base in a and "hash(" in a, g.loc(i), f"signature of `{o}`, hash `{a}`")
        # what is deleted is what was signed
        BASE = r"local:\w+"
        for g in below(p, f, own):
            for i, inf in g.calls():
                n = last(inf["q"])
                if inf["q"].endswith("WipeState::includeData") or inf["q"].endswith("WipeState::markForDeletion"):
                    a = expand(sym, g, sym.r(g, g.args(i)[-1]), None)
                    ctx.ob("verify", f"{g.q}: only what the signature covers is marked for deletion", bool(re.search(r"elem\(.*includedDataURIs\(\)\)|includedDataURIs\(\)", a)), g.loc(i), a)
                if inf["q"].endswith("WipeState::excludeData") or inf["q"].endswith("WipeState::markAsSafe"):
                    a = expand(sym, g, sym.r(g, g.args(i)[-1]), None)
                    ctx.ob("verify", f"{g.q}: what the signature protects stays protected", bool(re.search(r"elem\(.*safeURIs|safeURIs", a)), g.loc(i), a)
        for cont, what, mk in ((r"includedDataURIs\(|STORE\b", "everything signed for deletion is considered", r"(includeData|markForDeletion)$"), (r"safeURIs", "everything signed as protected is protected", r"(excludeData|markAsSafe)$")):
            must_pass(ctx, "verify", f, [CallPred(r"WipeState::" + mk)], what=what, forall=re.compile(cont), allow=own, sanction=[(r"^empty\(.*includedDataURIs|^0==.*includedDataURIs\(\)\.size", True)])
        # the mode
        pathfacts(ctx, "use", f, {"u": r"^local:\w*[uU]nsafe\w*$|unsafe\w*All", "d": r"^local:\w*doit\w*$|doit"}, "a wipe is kept for execution only if it is a real one of the ordinary kind",
                  at=[(KEEP, lambda d, fr, i: "a dry run is kept for execution" if d.get("d") is not True else "an unrestricted wipe is kept for execution" if d.get("u") is not False else None)], boolean=False, allow=own, need_hits=True)

    # 2. a state that is kept belongs to the latest request for the database
    for h in (SH, CH):
        fam = [f for f in p.fns.values() if f.blocks and (p.family(f)[-1].cls == h or p.family(f)[-1].cls.startswith("fdb5::remote::")) and any(re.search(INS, inf["q"]) and f.obj(i) is not None and "wipesInProgress_" in sym.r(f, f.obj(i)) for i, inf in f.calls())]
        fam = [f for f in fam if f.cls == h or h == CH and f.cls != SH]
        ctx.need(bool(fam), f"{h}: no function keeps a wipe state")
        for f in fam:
            for i, inf in f.calls():
                if not re.search(INS, inf["q"]) or f.obj(i) is None or "wipesInProgress_" not in sym.r(f, f.obj(i)):
                    continue
                n = last(inf["q"])
                if n in ("insert_or_assign", "operator[]"):
                    ctx.ob("use", f"{f.q}: a state kept replaces an older one", True, f.loc(i))
                    continue
                ok, why = result_checked(p, f, i) if n in ("emplace", "insert", "try_emplace") else (False, "")
                if ok:
                    ctx.ob("use", f"{f.q}: a state kept replaces an older one", True, f.loc(i))
                    continue
                ordered(ctx, "use", f, [CallPred(r"^std::(map|unordered_map)::(erase|clear)$", obj=r"wipesInProgress_")], [CallPred(INS, obj=r"wipesInProgress_")], "a state kept replaces an older one",
                        sanction=[(r"^end\(.*wipesInProgress_\)==.*find\(|find\(.*==end\(.*wipesInProgress_|end\(.*wipesInProgress_.*==", True), (r"wipesInProgress_\.(count|contains)\(", False), (r"wipesInProgress_\.find\(.*\.second$", False)])

    # 3. execution uses the state kept for the database that the message names
    CACHED = r"(cachedWipeState|map::find|map::at)$"
    ACT = {SH: ST + DO, CH: CA + DO}
    for h in (SH, CH):
        own = lambda g, h=h: g.cls == h or not g.cls
        acts = [f for f in p.fns.values() if f.cls == h and f.kind == "method" and f.blocks and any(re.search(ACT[h], inf["q"]) for _, inf in f.calls())]
        ctx.need(len(acts) >= 3, f"{h}: phases of a wipe are missing")
        tops = []
        for f in acts:
            # helpers are judged through the message handlers that call them
            g = f
            while "Buffer" not in " ".join(x[2] for x in g.params):
                cs = [p.fns[c] for c in p.callers.get(g.id, ()) if p.fns[c].cls == h] if isinstance(p.callers, dict) else [p.fns[c] for c in p.callers(g.id) if p.fns[c].cls == h]
                if not cs:
                    break
                g = cs[0]
            tops.append(g)
        for f in sorted({g.id: g for g in tops}.values(), key=lambda g: g.id):
            k = next((j for j, x in enumerate(f.params) if "Buffer" in x[2]), 2)
            acting = CallPred(ACT[h])
            LOOK = [CallPred(r"cachedWipeState$"), CallPred(r"^std::(map|unordered_map)::at$", obj="wipesInProgress_")]
            ordered(ctx, "use", f, LOOK, [acting], "nothing is done without a state kept for the database", allow=own, sanction=[(r"^end\(.*wipesInProgress_\)==|find\(.*==end\(.*wipesInProgress_", False)])
            # unknown items: agreed, and reported before
            unk = CallPred((ST if h == SH else CA) + "doWipeUnknowns$")
            if any(unk.quick(inf) for g in below(p, f, own) for _, inf in g.calls()):
                pathfacts(ctx, "use", f, {"u": r"unsafeWipeAll"}, "unknown items are deleted only in the unsafe mode", boolean=False, allow=own, need_hits=True,
                          at=[(unk, lambda d, fr, i: "unknown items are deleted though the unsafe mode was not agreed" if d.get("u") is not True else None)])
                comparing = {g.id for g in below(p, f, own) for j, inf in g.calls() if last(inf["q"]) in ("find", "count", "contains") and g.args(j) and sym.r(g, g.args(j)[0]).startswith("elem(")}
                pathfacts(ctx, "use", f, {"m": r"\.find\(elem\(.*==end|^end\(.*==.*\.find\(elem", "c": r"\.(count|contains)\(elem\("}, "every unknown item was reported by the server", boolean=False, allow=own, need_hits=True,
                          at=[(x, lambda d, fr, i: "an item that was not reported is accepted" if fr.fn.id in comparing and d.get("m") is not False and d.get("c") is not True else None) for x in NEXT], kills=[(NEXT, ["m", "c"])])
                flows(ctx, "use", f, unk, {0: r"^local:\w+$"}, "the items deleted are those that were compared", allow=own)
                for g in below(p, f, own):
                    for i, inf in g.calls():
                        if unk.quick(inf):
                            a = sym.r(g, g.args(i)[0])
                            cmp = [sym.r(g2, g2.args(j)[0]) for g2 in below(p, f, own) for j, inf2 in g2.calls() if last(inf2["q"]) in ("find", "count", "contains") and g2.obj(j) is not None and "wipesInProgress_" not in sym.r(g2, g2.obj(j)) and g2.args(j)]
                            src = [expand(sym, g2, sym.r(g2, g2.obj(j))) for g2 in below(p, f, own) for j, inf2 in g2.calls() if last(inf2["q"]) in ("find", "count", "contains") and g2.obj(j) is not None and g2.args(j) and sym.r(g2, g2.args(j)[0]).startswith("elem(")]
                            ctx.ob("use", f"{f.q}: the items deleted are those that were compared with those reported", any(c == f"elem({a})" or re.search(r"elem\(param:", c) for c in cmp) and any(re.search("unrecognisedURIs|unknownURIs|param:", s) for s in src), g.loc(i), f"deleted {a}, compared {cmp} with {src}")
            uri = CallPred((ST if h == SH else CA) + "doWipeURIs$")
            if any(uri.quick(inf) for g in below(p, f, own) for _, inf in g.calls()):
                flows(ctx, "use", f, uri, {0: r"cachedWipeState\(.*\)(\.|->)?.*state|\.state\b|\.second.*state|wipesInProgress_.*state"}, "what is deleted is what was kept", allow=own)
            # a key decoded from the message
            for g in below(p, f, own):
                for i, inf in g.calls():
                    if last(inf["q"]) == "cachedWipeState":
                        a = expand(sym, g, sym.r(g, g.args(i)[-1]))
                        ctx.ob("use", f"{f.q}: the state is looked up under the key in the message", bool(re.search(r"Stream|param:\w+|^local:", a)), g.loc(i), a)
            end = CallPred((ST if h == SH else CA) + "doWipeEmptyDatabase$")
            if any(end.quick(inf) for g in below(p, f, own) for _, inf in g.calls()):
                must_pass(ctx, "use", f, [CallPred(r"^std::(map|unordered_map)::(erase|clear|extract)$", obj=r"wipesInProgress_")], what="a state is forgotten once the wipe is over", allow=own)
        for f in [g for g in p.byq.get(h + "::cachedWipeState", []) if g.blocks]:
            pathfacts(ctx, "use", f, {"m": r"^end\(this\.wipesInProgress_\)==|==end\(this\.wipesInProgress_\)|wipesInProgress_\.(count|contains)\("}, "an unknown database is an error", boolean=False, allow=own,
                      check=lambda o, d: None if d.get("m") is False or ".at(" in o else "a state is returned without looking whether there is one")
            for i, x in enumerate(f.n):
                if x[0] == "return" and x[3]:
                    a = expand(sym, f, sym.r(f, x[3][0]))
                    m = re.search(r"wipesInProgress_\.(find|at)\((.*)\)", a)
                    ctx.ob("use", f"{f.q}: the state found under what was given", bool(m) and all(re.search(par(f, k) + r"\b", m.group(2)) for k in range(len(f.params))), f.loc(i), a)
        # several clients share a connection to a store server (a RemoteStore each): their wipes must not be mixed up
        if h == SH:
            for f in sorted((g for g in p.fns.values() if g.cls == SH and g.blocks), key=lambda g: g.id):
                for i, inf in f.calls():
                    if f.obj(i) is not None and "wipesInProgress_" in sym.r(f, f.obj(i)) and f.args(i) and last(inf["q"]) in ("find", "at", "count", "contains", "erase", "extract", "operator[]", "insert", "emplace", "insert_or_assign", "try_emplace"):
                        a = " ".join(expand(sym, f, sym.r(f, x)) for x in f.args(i)[:1]) + " " + " ".join(f.n[x][2]["t"] if isinstance(f.n[x][2], dict) and "t" in f.n[x][2] else "" for x in f.args(i)[:1])
                        ids = [x[0] for x in f.params if re.search(r"\b(uint32_t|unsigned int)\b", x[2])]
                        ctx.ob("use", f"{f.q}: wipes are told apart by client", any(re.search(rf"\bparam:{k}\b", a) for k in ids) or "iter" in a or "local:" in a and "iterator" in a, f.loc(i), a)
        # the bookkeeping is the control thread's alone
    # 4. what the catalogue server signs
    for f in sorted(p.fns.values(), key=lambda g: g.id):
        for i, inf in f.calls():
            if inf["q"].endswith("::signStoreStates") or inf["q"].endswith("StoreWipeState::sign") or inf["q"] == "fdb5::Signature::sign":
                ok = p.family(f)[-1].cls.startswith("fdb5::remote::") and ("Helper" in p.family(f)[-1].cls or "Handler" in p.family(f)[-1].cls) if inf["q"].endswith("signStoreStates") else f.cls in ("fdb5::CatalogueWipeState", "fdb5::StoreWipeState") or p.family(f)[-1].cls.startswith("fdb5::remote::") and "server" in f.file
                ctx.ob("sign", f"{f.q}: only the catalogue server signs", ok, f.loc(i))
    helpers = [f for f in p.fns.values() if f.blocks and f.kind == "method" and any(inf["q"].endswith("::signStoreStates") for _, inf in f.calls())]
    for f in helpers:
        one = lambda g, c=f.cls: g.cls == c or not g.cls
        SIGN = CallPred(r"::signStoreStates$")
        ordered(ctx, "sign", f, [], [SIGN], "an empty secret signs nothing", sanction=[(r"^empty\(.*$", False), (r"^0==.*\.(size|length)\(\)$", False), (r"^0<.*(size|length)\(\)$", True)], allow=one)
        ordered(ctx, "sign", f, [SIGN], [CallPred(r"operator<<$", args={1: r"^param:"}), CallPred(r"WipeState::encode$")], "states are signed before they are sent", allow=one)
        cls = f.cls
        for g in [m for m in p.fns.values() if m.cls == cls and m.blocks and any(last(inf["q"]) == "wipe" for _, inf in m.calls())]:
            ordered(ctx, "sign", g, [], [CallPred(r"::wipe$")], "the catalogue server refuses the unrestricted mode", sanction=[(r"unsafe\w*[aA]ll", False)], allow=one)
    for f in [g for g in F("fdb5::CatalogueWipeState::signStoreStates") if g.blocks]:
        must_pass(ctx, "sign", f, [CallPred(r"StoreWipeState::sign$", args={0: par(f, 0)})], what="every store's state is signed with the secret", forall=re.compile("storeWipeStates_"))
    for f in [g for g in F("fdb5::StoreWipeState::sign") if g.blocks]:
        flows(ctx, "sign", f, CallPred(r"Signature::sign$"), {0: r"this\.hash\(" + par(f, 0)}, "signs its own hash", obj=r"signature_")
    for f in [g for g in F("fdb5::StoreWipeState::hash") if g.blocks]:
        HU = r"Signature::hashURIs$"
        got = [(expand(sym, f, sym.r(f, f.args(i)[0])), sym.r(f, f.args(i)[1])) for g in [f] for i, inf in g.calls() if re.search(HU, inf["q"])]
        ctx.ob("sign", f"{f.q}: covers what is deleted", any("includedDataURIs" in a for a, _ in got), f.loc(), str(got))
        ctx.ob("sign", f"{f.q}: covers what is protected", any("safeURIs" in a for a, _ in got), f.loc(), str(got))
        ctx.ob("sign", f"{f.q}: depends on the secret", bool(got) and all(re.search(par(f, 0), b) for _, b in got), f.loc(), str(got))
        ctx.ob("sign", f"{f.q}: deleted and protected are told apart", len({b for _, b in got}) == len(got) == 2, f.loc(), str(got))
    for f in [g for g in F("fdb5::Signature::hashURIs") if g.blocks]:
        FN = CallPred(r"Signature::fnv1a$")
        must_pass(ctx, "sign", f, [CallPred(r"Signature::fnv1a$", args={0: r"elem\("})], what="every item counts", forall=re.compile(r"local:|" + par(f, 0)))
        must_pass(ctx, "sign", f, [CallPred(r"Signature::fnv1a$", args={0: par(f, 1)})], what="the secret counts")
        PB = CallPred(r"(vector|set|list)::(push_back|insert|emplace_back|emplace)$")
        if any(PB.quick(inf) for _, inf in f.calls()):
            must_pass(ctx, "sign", f, [PB], what="no item is left out", forall=re.compile(par(f, 0)))
    for f in [g for g in F("fdb5::Signature::validSignature") if g.blocks]:
        pathfacts(ctx, "sign", f, {"e": r"sig_==" + par(f, 0) + r"|" + par(f, 0) + r"==this\.sig_"}, "equal means equal", check=lambda o, d: "a different signature passes" if o and d.get("e") is not True else None)
    for f in [g for g in F("fdb5::StoreWipeState::failIfSigned") if g.blocks]:
        pathfacts(ctx, "sign", f, {"s": r"isSigned\(\)", "z": r"^0==.*sig_$"}, "a signed state is closed", boolean=False, check=lambda o, d: None if d.get("s") is False or d.get("z") else "a signed state may be changed")
    for n in ("includeData", "excludeData"):
        for f in [g for g in F("fdb5::StoreWipeState::" + n) if g.blocks]:
            ordered(ctx, "sign", f, [CallPred(r"StoreWipeState::failIfSigned$")], [CallPred(r"WipeState::(markForDeletion|markAsSafe)$")], "a signed state is closed", sanction=[(r"isSigned\(\)", False)])
