"""Static decision of "restrictions applied for a wipe are lifted": who holds and who gives up the remembered access state, its
order relative to the locking, and the restoring destructors on every exit of a wipe."""
import re

from vt.lib import AssignPred, CallPred, below, expand, flows, guarded, last, must_pass, never_after, ordered, par, pathfacts
from vt.prog import Sym, implied

TECHNIQUE = "typestate of the remembered access state (recorded before locking, restored by destructors on every exit, given up only after a complete wipe), who-writes-what and guards"
ASSUMPTIONS = ["destructors of locals run on every exit of a function (C++)"]
FLOORS = {"record": 3, "restore": 5, "keep": 2}

S = "fdb5::CatalogueWipeState"
C = "fdb5::WipeCoordinator"


def run(ctx):
    p = ctx.p
    F = p.find
    sym = Sym(p)
    wcls = {"fdb5::WipeState"} | set(p.subclasses("fdb5::WipeState"))
    state = None  # the member that remembers
    for f in F(S + "::initialControlState"):
        for i, x in enumerate(f.n):
            if x[0] in ("assign", "call") and (x[0] == "assign" or last(x[2]["q"]) in ("operator=", "emplace")):
                o = f.obj(i) if x[0] == "call" and f.obj(i) is not None else x[3][0] if x[3] else None
                if o is not None and sym.r(f, o).startswith("this."):
                    state = sym.r(f, o)
    ctx.ob("record", "the access state in force before the wipe is remembered in the wipe state", state is not None)
    if state is None:
        return
    m = re.escape(state)

    # 1. recorded before anything is locked, by whoever locks
    LOCK = CallPred(r"^fdb5::\w*Catalogue\w*::control$")
    for f in sorted(p.fns.values(), key=lambda g: g.id):
        if not f.file.startswith("fdb5/") or not f.blocks:
            continue
        if not any(inf["q"] == S + "::initialControlState" for _, inf in f.calls()):
            continue
        own = lambda g, c=f.cls: g.cls == c or not g.cls
        roots = [g for g in p.fns.values() if g.kind == "method" and g.name in ("visitDatabase",) and f in below(p, g, own)] or [f]
        for r in roots:
            ordered(ctx, "record", r, [CallPred(S + "::initialControlState$")], [LOCK], "the access state is recorded before the database is locked", allow=own)
            ordered(ctx, "record", r, [CallPred(S + "::catalogue$")], [LOCK], "the catalogue to unlock is bound before the database is locked", allow=own)
            flows(ctx, "record", r, LOCK, {0: r"Disable"}, "what is done is a restriction", allow=own)
        # only what was enabled is recorded
        bad, n = "", 0
        for g in below(p, f, own):
            for i, x in enumerate(g.n):
                if x[0] == "call" and re.search(r"ControlIdentifiers::operator\|=$", x[2]["q"]):
                    n += 1
        if n:
            guarded(ctx, "record", f, [CallPred(r"ControlIdentifiers::operator\|=$")], [(r"\.enabled\(", True)], "only what was enabled is recorded as enabled", allow=own)
        arg = [expand(sym, f, sym.r(f, f.args(i)[0])) for i, inf in f.calls() if inf["q"] == S + "::initialControlState"]
        names = {sym.r(g, g.obj(i)) for g in below(p, f, own) for i, inf in g.calls() if re.search(r"ControlIdentifiers::operator\|=$", inf["q"]) and g.obj(i) is not None}
        names = {x for x in names if re.match(r"^local:\w+$", x)} | {sym.r(f, f.args(i)[0]) for i, inf in f.calls() if inf["q"] == S + "::initialControlState"}
        for g in below(p, f, own):
            for i, inf in g.calls():
                if last(inf["q"]) == "operator=" and g.obj(i) is not None and sym.r(g, g.obj(i)) in names:
                    ctx.ob("record", f"{f.q}: what was recorded is not replaced", bool(g.args(i)) and sym.r(g, g.obj(i)) in sym.r(g, g.args(i)[0]), g.loc(i))
        for g in below(p, f, own):
            if any(re.search(r"ControlIdentifiers::operator\|=$", inf["q"]) and re.search(r"elem\(|iter\(", " ".join(sym.r(g, a) for a in g.args(i))) for i, inf in g.calls()):
                must_pass(ctx, "record", g, [CallPred(r"ControlIdentifiers::operator\|=$")], what="everything that is enabled is recorded", forall=re.compile(r"ControlIdentifierList"), sanction=[(r"\.enabled\(", False), (r"doit_", False)], allow=own)
        ctx.ob("record", f"{f.q}: what is recorded is collected from the catalogue", bool(n) or any("enabled" in a or "ontrol" in a for a in arg), f.loc(), str(arg))
    for f in sorted(p.fns.values(), key=lambda g: g.id):
        if not f.file.startswith("fdb5/") or not f.blocks or f.cls in wcls:
            continue
        # anybody else who restricts while wiping
        if f.file.startswith("fdb5/api/local/Wipe"):
            calls = [i for i, inf in f.calls() if LOCK.quick(inf)]
            if calls:
                fam = [g for g in p.fns.values() if g.cls == f.cls and any(inf["q"] == S + "::initialControlState" for _, inf in g.calls())]
                ctx.ob("record", f"{f.q}: locks only with the state remembered", bool(fam), f.loc(calls[0]))

    # 2. restored
    RESTORE = CallPred(S + "::restoreControlState$")
    EN = CallPred(r"^fdb5::\w*Catalogue\w*::control$")
    for f in F(S + "::restoreControlState"):
        must_pass(ctx, "restore", f, [EN], what="the catalogue is unlocked", sanction=[(r"^this\.catalogue_$|^empty\(this\.catalogue_|null", False), (m, False), (r"^0==this\.catalogue_|nullptr==this\.catalogue_", True), (rf"has_value\({m}|{m}\.has_value", False)], allow=lambda g: g.cls in wcls)
        flows(ctx, "restore", f, EN, {0: r"Enable", 1: m}, "exactly what was enabled is enabled again", allow=lambda g: g.cls in wcls)
        never_after(ctx, "restore", f, [CallPred(r"optional::reset$", obj=m)], [EN], "forgotten only once restored", need_first=False, allow=lambda g: g.cls in wcls)
    dt = [f for f in p.fns.values() if f.cls == S and f.kind == "dtor"]
    ctx.ob("restore", "the wipe state restores the access state when it goes away", bool(dt))
    for f in dt:
        must_pass(ctx, "restore", f, [RESTORE, EN], what="restores the access state", sanction=[(m, False)], allow=lambda g: g.cls in wcls)
    for f in F(C + "::wipe"):
        # the coordinator restores on every exit: a local whose destructor restores, made before anything else happens
        guards = []
        for i, x in enumerate(f.n):
            if x[0] == "var" and not x[2].get("ref"):
                t = re.sub(r"^const |&$", "", x[2]["t"]).strip()
                for d in p.fns.values():
                    if d.kind == "dtor" and (d.cls == t or d.cls.endswith("::" + t)) and d.cls not in wcls:
                        if any(RESTORE.quick(inf) or EN.quick(inf) for g in below(p, d, lambda g: True)[:50] for _, inf in g.calls()):
                            guards.append((i, d))
        lam = [g for g in p.fns.values() if g.kind == "lambda" and f in p.family(g) and any(RESTORE.quick(inf) for _, inf in g.calls())]
        ctx.ob("restore", f"{f.q}: the access state is restored on every exit", bool(guards or lam) or any(RESTORE.quick(inf) for g in below(p, f, lambda g: g.cls == C or not g.cls) for _, inf in g.calls()), f.loc())
        for i, d in guards:
            must_pass(ctx, "restore", d, [RESTORE, EN], what="restores the access state", allow=lambda g: not g.cls or g.cls in wcls or g.cls == d.cls)
            first = [j for j, inf in f.calls() if re.search(r"Store\w*::finaliseWipeState$|^fdb5::WipeCoordinator::", inf["q"])]
            bl = f.n[i][1]
            ctx.ob("restore", f"{f.q}: the guard is there before the stores are contacted", all(f.n[j][1] >= bl for j in first), f.loc(i))
            ctx.ob("restore", f"{f.q}: the guard restores the state of this wipe", par(f, 0) in " ".join(sym.r(f, c) for c in f.n[i][3]), f.loc(i), " ".join(sym.r(f, c) for c in f.n[i][3]))

    # 3. given up only after a complete wipe
    GIVE = [CallPred(S + "::clearControlState$")]
    for f in F(C + "::wipe"):
        near = lambda g: g.cls == C or not g.cls
        ordered(ctx, "keep", f, [CallPred(r"^fdb5::Catalogue\w*::doWipeURIs$")], GIVE, "the restrictions stay only after the catalogue has been wiped", allow=near, need_then=False)
        ordered(ctx, "keep", f, [CallPred(r"^fdb5::Catalogue\w*::doWipeEmptyDatabase$")], GIVE, "the restrictions stay only after the database is gone", allow=near, need_then=False)
        guarded(ctx, "keep", f, GIVE, [(r"empty\(.*safeURIs", True)], "the restrictions stay only if nothing was retained", allow=near, required=False)
    for f in sorted(p.fns.values(), key=lambda g: g.id):
        if not f.file.startswith("fdb5/") or not f.blocks:
            continue
        for i, inf in f.calls():
            if GIVE[0].quick(inf):
                ctx.ob("keep", f"{f.q}: gives up the remembered state as part of the wipe only", f.cls == C or not f.cls or f.cls in wcls, f.loc(i))
            elif f.cls in wcls and f.name not in ("clearControlState", "restoreControlState", "initialControlState", "operator=") and f.kind == "method":
                o = f.obj(i)
                if o is not None and sym.r(f, o) == state and last(inf["q"]) in ("reset", "operator=", "emplace", "swap"):
                    ctx.ob("keep", f"{f.q}: changes the remembered access state", False, f.loc(i))
