"""Static decision of the order of a wipe: typestate over the coordinator's paths (mask, data, catalogue, containers), masking of
every index that goes, synchronous remote phases, and what each phase of the backends may remove."""
import re

from vt.lib import CallPred, below, flows, last, must_pass, never_after, ordered, par, pathfacts
from vt.prog import Sym

TECHNIQUE = "interprocedural typestate over the wipe coordinator (mask, data, catalogue, containers), co-occurrence of masking and deletion marks, synchronous remote phases"
ASSUMPTIONS = ["unlink and rmdir take effect in program order", "a remote server carries out a request before it answers (P15, P16)"]
FLOORS = {"order": 6, "mask": 4, "remote": 6}

C = "fdb5::WipeCoordinator"


def run(ctx):
    p = ctx.p
    F = p.find
    sym = Sym(p)
    near = lambda g: g.cls == C or not g.cls
    CAT, STO = r"^fdb5::(remote::|Toc|Daos|Fam)?(Remote)?Catalogue\w*::", r"^fdb5::(remote::|Toc|Daos|Fam)?(Remote)?Store::"
    MASK = [CallPred(CAT + "maskIndexEntries$")]
    DATA = [CallPred(STO + r"(doWipeURIs|doWipeUnknowns|doUnsafeFullWipe)$")]
    CATW = [CallPred(CAT + r"(doWipeURIs|doUnsafeFullWipe)$")]
    CATU = [CallPred(CAT + "doWipeUnknowns$")]
    EMPTY = [CallPred(CAT + "doWipeEmptyDatabase$")]
    SEMPTY = [CallPred(STO + "doWipeEmptyDatabase$")]
    for f in F(C + "::wipe"):
        ordered(ctx, "order", f, MASK, DATA + CATW + CATU, "the entries are masked before anything is deleted", allow=near)
        flows(ctx, "mask", f, MASK[0], {0: r"indexesToMask"}, "all the indexes chosen for masking are masked", allow=near)
        ALLW = [CallPred(CAT + r"doWipeURIs$")]
        never_after(ctx, "order", f, ALLW, DATA, "no data is deleted after the catalogue's own files", allow=near)
        never_after(ctx, "order", f, CATW, [CallPred(STO + r"doUnsafeFullWipe$")], "no data is deleted after the catalogue's own files (wipe of everything)", allow=near)
        ordered(ctx, "order", f, [CallPred(STO + r"doWipeURIs$")], ALLW, "the data of every store goes before the catalogue's own files", allow=near,
                sanction=[(r"empty\(.*storeWipeStates", True), (r"^atend\(.*(storeStates|storeWipeStates)", True)])
        never_after(ctx, "order", f, EMPTY, DATA + CATW + CATU, "the container goes after everything in it", allow=near)
        never_after(ctx, "order", f, SEMPTY, DATA + CATW + CATU + EMPTY, "the stores' containers go last", allow=near)
        ordered(ctx, "order", f, ALLW, EMPTY, "the container goes only once the catalogue has been wiped", allow=near)
        # a store that could not be wiped at once is wiped item by item, before the catalogue goes as a whole
        pathfacts(ctx, "order", f, {"full": r"Store\w*::?.*doUnsafeFullWipe\(|store.*\.doUnsafeFullWipe\(", "more": r"^atend\(.*storeWipeStates"}, "the catalogue is wiped as a whole only if every store was",
                  events={"partial": []}, at=[(CallPred(CAT + "doUnsafeFullWipe$"), lambda d, fr, i: "the catalogue is wiped as a whole though a store was not" if d.get("full") is False else None)], allow=near)
        for g in below(p, f, near):
            if any(CallPred(STO + "doWipeURIs$").quick(inf) for _, inf in g.calls()):
                must_pass(ctx, "order", g, [CallPred(STO + "doWipeURIs$")], what="the data of every store that was not wiped as a whole is deleted", forall=re.compile("[sS]toreWipeStates|storeStates"),
                          sanction=[(r"^param:doit$|^" + par(f, 1) + "$", False), (r"storeWiped|doUnsafeFullWipe\(", True)], allow=near)

    # every index whose file goes is masked as well, and masking reaches the table of contents
    for f in sorted(p.fns.values(), key=lambda g: g.id):
        if f.name == "markIndexForWipe" and f.kind == "method" and f.blocks and "remote" not in f.cls:
            own = lambda g, c=f.cls: g.cls == c or not g.cls
            pathfacts(ctx, "mask", f, {}, "an index whose file goes is masked", events={"d": [CallPred(r"WipeState::markForDeletion$")], "m": [CallPred(r"CatalogueWipeState::markForMasking$")]},
                      check=lambda o, d: "the index is marked for deletion but not for masking" if d.get("d") and not d.get("m") else None, boolean=False, need_hits=True, allow=own)
            flows(ctx, "mask", f, CallPred(r"CatalogueWipeState::markForMasking$"), {0: par(f, 0)}, "the index itself", allow=own)
        if f.name == "maskIndexEntries" and f.kind == "method" and f.blocks and f.cls.startswith("fdb5::") and "remote" not in f.cls:
            own = lambda g, c=f.cls: g.cls == c or not g.cls
            P0 = par(f, 0)
            T = [CallPred(r"TocHandler::writeClearRecord$", args={0: rf"elem\({P0}\)"}), CallPred(r"DaosKeyValue::remove$")]
            if any(t.quick(inf) for g in below(p, f, own) for _, inf in g.calls() for t in T):
                must_pass(ctx, "mask", f, T, what="every index given is masked", forall=re.compile(P0), allow=own, sanction=[(r"\.has\(", False), (r"^0==.*\.size\(", True)])
    for f in F("fdb5::CatalogueWipeState::markForMasking"):
        must_pass(ctx, "mask", f, [CallPred(r"^std::set::(insert|emplace)$", obj=r"indexesToMask_")], what="is remembered")

    # the remote phases are over when the calls return
    for f in sorted(p.fns.values(), key=lambda g: g.id):
        if f.cls in ("fdb5::remote::RemoteCatalogue", "fdb5::remote::RemoteStore") and f.name in ("maskIndexEntries", "doWipeURIs", "doWipeUnknowns", "doUnsafeFullWipe", "doWipeEmptyDatabase", "finaliseWipeState") and f.blocks:
            own = lambda g, c=f.cls: g.cls == c or not g.cls
            if not any(last(inf["q"]).startswith("controlWrite") for g in below(p, f, own) for _, inf in g.calls()):
                calls = [last(inf["q"]) for g in below(p, f, own) for _, inf in g.calls()]
                ctx.ob("remote", f"{f.q}: waits for the server", not any(c.startswith(("dataWrite", "write")) for c in calls) and any(c in ("NotImplemented", "throw") for c in calls) or any(x[0] == "throw" for x in f.n), f.loc())
                continue
            must_pass(ctx, "remote", f, [CallPred(r"Client::controlWrite(ReadResponse|CheckResponse)$")], what="waits for the server", allow=own, sanction=[(r"empty\(", True)])
    for f in F("fdb5::remote::Client::controlWriteCheckResponse"):
        must_pass(ctx, "remote", f, [CallPred(r"future\w*::(get|wait)$")], what="returns when the answer is there", allow=lambda g: g.cls == "fdb5::remote::Client")
    for f in F("fdb5::remote::Client::controlWriteReadResponse"):
        must_pass(ctx, "remote", f, [CallPred(r"future\w*::(get|wait)$")], what="returns when the answer is there", allow=lambda g: g.cls == "fdb5::remote::Client")
