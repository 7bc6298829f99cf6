"""Static decision of "no confirmation, no change": for every function that receives the authorisation, an interprocedural
exploration with the authorising branches taken as the only way on; no path reaches a call that changes stored data (file,
table-of-contents, B-tree or object-store mutator) without the flag being tested true. Plus provenance of the flag through
every layer, including worker lambdas, the wire and the command line."""
import re

from vt.lib import MUTATORS, CallPred, codec, deepflows, flows, guarded, last, member_of, par
from vt.prog import Sym

TECHNIQUE = "interprocedural typestate over the call graph down to every mutating call, guarded by the authorisation flag; provenance of the flag through lambdas, stream and options"
ASSUMPTIONS = ["restoring an earlier access state and temporary object-store snapshots change no stored data"]
FLOORS = {"no-effect": 9, "passed-on": 12, "remote": 4, "tools": 6}

# handing back an access state changes nothing by itself; deciding whether there is one to hand back is P10
UNDO = ("restoreControlState",)


def _eff(ctx, f, flag, what, allow):
    from vt.engine import Engine
    from vt.lib import Ordered
    r = Ordered(ctx.p, [], MUTATORS, sanction=[(rf"^{flag}$", True)], allow=allow)
    r.exceptions = False
    Engine(ctx.p, r).run(f, Ordered.PENDING, None)
    ctx.count(r)
    b = sorted(r.bad.values())
    ctx.ob("no-effect", f"{f.q}({', '.join(x[2] for x in f.params)}): {what}", not b, b[0][0] if b else f.loc(),
           f"{b[0][1]} is reached without the authorisation; {b[0][2]}" if b else f"{len(r.stats['functions'])} function(s) below, {len(r.then_hits)} mutating site(s) behind the flag")


def run(ctx):
    p = ctx.p
    F = p.find
    sym = Sym(p)

    # 1. nothing is changed unless the flag is true
    for f in F("fdb5::WipeCoordinator::wipe"):
        _eff(ctx, f, par(f, 1), "changes nothing unless authorised", lambda g: g.name not in UNDO)
    W = "fdb5::api::local::WipeCatalogueVisitor"
    P = "fdb5::api::local::PurgeVisitor"
    for cls, k in ((W, 2), (P, 2)):
        m = member_of(p, cls, k)
        ctx.need(m, f"{cls} does not keep the authorisation")
        for f in sorted(p.fns.values(), key=lambda g: g.id):
            if f.cls == cls and f.kind == "method" and f.name.startswith(("visit", "catalogue", "on")):
                _eff(ctx, f, rf"this\.{m}", "changes nothing unless authorised", lambda g: g.name not in UNDO)
    for f in sorted(p.fns.values(), key=lambda g: g.id):
        if f.name == "purge" and f.cls in p.subclasses("fdb5::PurgeVisitor") and len(f.params) == 3:
            _eff(ctx, f, par(f, 2), "changes nothing unless authorised", None)
        if f.name == "remove" and len(f.params) == 4 and f.params[3][2] == "bool" and f.kind == "method":
            _eff(ctx, f, par(f, 3), "changes nothing unless authorised", None)
    for f in F("fdb5::TocPurgeVisitor::purge"):
        flows(ctx, "passed-on", f, CallPred(r"::remove$"), {3: f"^({par(f, 2)}|true)$"}, "the authorisation is passed on to the removal", allow=lambda g: g.cls == f.cls or not g.cls)

    # 2. passed on unchanged
    for f in F("fdb5::FDB::wipe"):
        deepflows(ctx, "passed-on", f, CallPred(r"^fdb5::\w+::wipe$"), {1: f"^{par(f, 1)}$"}, "the authorisation reaches backend and coordinator", allow=lambda g: g.cls == "fdb5::FDB" or not g.cls or g.kind == "lambda")
        deepflows(ctx, "passed-on", f, CallPred(r"^fdb5::WipeCoordinator::wipe$"), {1: f"^{par(f, 1)}$", 2: f"^{par(f, 3)}$"}, "the unsafe mode reaches the coordinator", allow=lambda g: g.cls == "fdb5::FDB" or not g.cls or g.kind == "lambda")
    for f in F("fdb5::FDB::purge"):
        deepflows(ctx, "passed-on", f, CallPred(r"^fdb5::FDBBase::purge$|^fdb5::\w*FDB::purge$"), {1: f"^{par(f, 1)}$", 2: f"^{par(f, 2)}$"}, "the authorisation reaches the backend", allow=lambda g: g.cls == "fdb5::FDB" or not g.cls or g.kind == "lambda")
    for q, k in (("wipe", {1: 1, 2: 2, 3: 3}), ("purge", {1: 1, 2: 2})):
        for f in F("fdb5::SelectFDB::" + q):
            near = lambda g: g.cls in ("fdb5::SelectFDB", "fdb5::FDBLane") or not g.cls or g.kind == "lambda"
            deepflows(ctx, "passed-on", f, CallPred(rf"^fdb5::(FDBBase|FDB|LocalFDB|RemoteFDB)::{q}$"), {a: f"^{par(f, b)}$" for a, b in k.items()}, "the authorisation reaches every lane", allow=near)
    near = lambda g: g.cls == "fdb5::LocalFDB" or not g.cls or g.kind == "lambda"
    for f in F("fdb5::LocalFDB::wipe"):
        deepflows(ctx, "passed-on", f, CallPred(re.escape(W) + "::<ctor>$"), {2: f"^{par(f, 1)}$"}, "the authorisation reaches the visitor", allow=near)
    for f in F("fdb5::LocalFDB::purge"):
        deepflows(ctx, "passed-on", f, CallPred(re.escape(P) + "::<ctor>$"), {2: f"^{par(f, 1)}$", 3: f"^{par(f, 2)}$"}, "the authorisation reaches the visitor", allow=near)
    for f in F("fdb5::WipeCoordinator::wipe"):
        flows(ctx, "passed-on", f, CallPred(r"Store::finaliseWipeState$"), {1: f"^{par(f, 1)}$", 2: f"^{par(f, 2)}$"}, "stores learn whether the wipe is authorised", allow=lambda g: g.cls == f.cls or not g.cls)
        flows(ctx, "passed-on", f, CallPred(r"WipeCoordinator::doWipeURIs$"), {3: f"^{par(f, 2)}$"}, "unsafe mode as asked for", required=False, allow=lambda g: g.cls == f.cls or not g.cls)
    for f in F(P + "::catalogueComplete"):
        m = member_of(p, P, 2)
        flows(ctx, "passed-on", f, CallPred(r"PurgeVisitor::purge$"), {2: rf"^this\.{m}$"}, "the authorisation is passed on", allow=lambda g: g.cls == P or not g.cls)

    # 3. C interface and remote
    for q, k in (("fdb_wipe", {1: 2, 2: 3, 3: 4}), ("fdb_purge", {1: 2, 2: 3})):
        for f in F(q):
            deepflows(ctx, "passed-on", f, CallPred(rf"^fdb5::FDB::{q[4:]}$"), {a: f"^{par(f, b)}$" for a, b in k.items()}, "flags of the C interface are passed on", allow=lambda g: g.file == f.file)
    for f in F("fdb5::RemoteFDB::wipe"):
        flows(ctx, "remote", f, CallPred(r"WipeHelper::<ctor>$"), {0: f"^{par(f, 1)}$", 2: f"^{par(f, 3)}$"}, "the flags are put into the request", allow=lambda g: g.cls == "fdb5::RemoteFDB" or not g.cls)
    for f in sorted(p.fns.values(), key=lambda g: g.id):
        if f.name == "extraEncode" and f.cls.endswith("WipeHelper"):
            c = [t for _, o, _, t in codec(p, f) if o == "<<"]
            ms = [member_of(p, f.cls, 0), member_of(p, f.cls, 2)]
            ctx.ob("remote", f"{f.q}: flags are sent in order", c == [f"this.{m}" for m in ms], f.loc(), str(c))
        if f.name == "extraDecode" and f.cls.endswith("WipeHelper"):
            c = [t for _, o, _, t in codec(p, f) if o == ">>"]
            g = [h for h in p.fns.values() if h.cls == f.cls and h.name == "apiCall"]
            ctx.need(g and len(c) >= 2, "server side wipe helper not understood")
            flows(ctx, "remote", g[0], CallPred(r"::wipe$"), {1: "^" + re.escape(c[0]) + "$"}, "the server passes on the authorisation it received")
    for f in F("fdb5::remote::RemoteStore::finaliseWipeState"):
        c = [t for _, o, _, t in codec(p, f) if o == "<<"]
        ctx.ob("remote", f"{f.q}: flags are sent", "param:" + f.params[2][0] in c and "param:" + f.params[1][0] in c and
               c.index("param:" + f.params[2][0]) < c.index("param:" + f.params[1][0]), f.loc(), str(c))
    for f in F("fdb5::remote::StoreHandler::finaliseWipeState"):
        c = [t for _, o, _, t in codec(p, f) if o == ">>"]
        ctx.need(len(c) >= 2, "store handler reads fewer than two flags")
        flows(ctx, "remote", f, CallPred(r"^fdb5::\w*Store::finaliseWipeState$"), {1: "^" + re.escape(c[-1]) + "$", 2: "^" + re.escape(c[-2]) + "$"}, "the store is told the flags received")
        guarded(ctx, "remote", f, [CallPred(r"(map|unordered_map)::(emplace|insert|operator\[\]|insert_or_assign|try_emplace)$", obj=r"wipesInProgress_")], [("^" + re.escape(c[-1]) + "$", True)],
                "state for the deletion is kept only if authorised")

    # 4. command line: off unless given, and the value given is the one used
    n = 0
    for f in sorted(p.fns.values(), key=lambda g: g.id):
        if not f.file.startswith("fdb5/tools/"):
            continue
        for i, inf in f.calls():
            if last(inf["q"]) in ("getBool", "get") and f.args(i) and '"doit"' in sym.r(f, f.args(i)[0]):
                a = f.args(i)
                dflt = sym.r(f, a[1]) if len(a) > 1 else "<none>"
                tgt = assigned(p, f, i)
                ok = dflt == "false" or dflt == tgt and initial_false(p, f.cls, dflt)
                n += 1
                ctx.ob("tools", f"{f.q}: --doit is off by default", ok and tgt is not None, f.loc(i), f"default {dflt}, kept in {tgt}")
                for g in [h for h in p.fns.values() if h.cls == f.cls and h.name == "execute"]:
                    if any(last(x["q"]) in ("wipe", "purge") for _, x in g.calls()):
                        flows(ctx, "tools", g, CallPred(r"^fdb5::FDB::(wipe|purge)$"), {1: "^" + re.escape(tgt or "?") + "$"}, "the option given is what is passed on", allow=lambda h: h.cls == f.cls or not h.cls)
                    elif tgt:
                        guarded(ctx, "tools", g, [CallPred(r"::(hideContents|overlayDB|reconsolidate)$")], [("^" + re.escape(tgt) + "$", True)], "changes only with --doit", allow=lambda h: h.cls == f.cls or not h.cls)
    ctx.need(n >= 3, f"only {n} tools with a confirming option found")


def assigned(p, f, i):
    """what the value of call i is assigned to"""
    par_ = f.parent
    j = i
    while j in par_:
        k = par_[j]
        x = f.n[k]
        if x[0] == "assign":
            return Sym(p).r(f, x[3][0])
        if x[0] not in ("cast", "un"):
            return None
        j = k
    return None


def initial_false(p, cls, member):
    """does every constructor of cls leave the member false?"""
    from vt.lib import member_values
    ok = False
    for f in p.fns.values():
        if f.cls == cls and f.kind == "ctor":
            v = member_values(p, f).get(member.split(".")[-1])
            if v is None or v[-1] not in ("false", "{false}", "0"):
                return False
            ok = True
    return ok
