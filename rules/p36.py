"""Static decision of "metadata are validated completely before anything is written": order of validation and writing below every write
visitor, what a rule must have matched, who may call the writers."""
import re

from vt.lib import CallPred, below, flows, guarded, ordered, par, pathfacts, stores
from vt.lib import AssignPred, last
from vt.prog import Sym

TECHNIQUE = "order and guards of validation and writing over the interprocedural CFG, path facts of rule matching, call-graph closure of who may write"
ASSUMPTIONS = ["fdb's checkMissingKeysOnWrite switch is left on", "the conversions of the keyword types are right (N02)"]
FLOORS = {"before": 4, "match": 4, "who": 3, "every": 2}

NEXT = [CallPred(r"iterator\w*::operator\+\+$"), AssignPred(r"^local:", None, ("++", "p++", "+="))]
WRITES = [CallPred(r"^fdb5::\w*Store::(archive|archiveCb)$"), CallPred(r"^fdb5::\w*CatalogueWriter::(archive|index)$"), CallPred(r"^fdb5::\w*Catalogue::(archive|index)$")]


def run(ctx):
    p = ctx.p
    F = p.find
    sym = Sym(p)
    visitors = sorted({"fdb5::WriteVisitor"} | set(p.subclasses("fdb5::WriteVisitor")))

    # 1. a visitor writes only after checking that no key is left unused
    VAL = CallPred(r"^fdb5::Key::validateKeys$")
    for c in visitors:
        for f in p.byq.get(c + "::selectDatum", []):
            if not f.blocks:
                continue
            ordered(ctx, "before", f, [VAL], WRITES, "all keys given are used, or nothing is written", sanction=[(r"^this\.checkMissingKeysOnWrite_$", False)],
                    allow=lambda g: g.cls in visitors or not g.cls, need_then=True)
            flows(ctx, "before", f, VAL, {0: r"^this\.initialFieldKey_"}, "the keys given are compared with the keys used", obj=par(f, 1), allow=lambda g: g.cls in visitors or not g.cls)
    for f in [g for g in p.fns.values() if g.kind == "ctor" and g.cls == "fdb5::BaseArchiveVisitor"]:
        stores(ctx, "before", f, {"initialFieldKey_": r"(^|[({])" + par(f, 1) + r"[)}]?$"}, "keeps the keys it was given")

    # 2. validateKeys
    for f in [g for g in F("fdb5::Key::validateKeys") if g.blocks]:
        INS = CallPred(r"(set|vector|list)::(insert|emplace|push_back|emplace_back)$")
        sets = {sym.r(g, g.obj(i)) for g in below(p, f) for i, inf in g.calls() if INS.q.search(inf["q"]) and g.obj(i) is not None and "mismatch" not in sym.r(g, g.obj(i))}
        FND = r"\.find\(.*\)\.second$|\.find\(.*\)!=end|^end\(this.*\)==.*\.find\(|\.find\(.*==end"
        T = {"f": FND}

        def nxt(d, fr, i):
            return "a key that is not used goes unnoticed" if d.get("f") is False and not d.get("ins") else None

        pathfacts(ctx, "every", f, T, "every key that is not used is noticed", events={"ins": [INS]}, at=[(x, nxt) for x in NEXT], kills=[(NEXT, ["f", "ins"])], boolean=False, need_hits=True)
        names = [re.escape(s) for s in sets if s.startswith("local:")]
        if names:
            Z = "|".join(rf"^{n}\.size\(\)$|^0<{n}\.size\(\)" for n in names)
            EM = "|".join(rf"^empty\({n}\)$|^0=={n}\.size\(\)$|^{n}\.empty\(\)$" for n in names)
            pathfacts(ctx, "every", f, {"z": Z, "e": EM}, "keys that are not used are an error", boolean=False,
                      check=lambda o, d: None if d.get("z") is False or d.get("e") else "keys that are not used are accepted")

    # 3. what a rule must have matched
    R = "fdb5::Rule"
    rcls = {R} | set(p.subclasses(R))
    own = lambda g: g.cls in rcls or not g.cls
    wexp = [f for c in sorted(rcls) for f in p.byq.get(c + "::expand", []) if f.blocks and len(f.params) >= 2 and "WriteVisitor" in f.params[1][2]]
    SEL = CallPred(r"^fdb5::\w*Visitor::selectDatum$")
    SDB, SIX = CallPred(r"^fdb5::\w*Visitor::selectDatabase$"), CallPred(r"^fdb5::\w*Visitor::(selectIndex|createIndex)$")
    for f in wexp:
        one = lambda g: g.cls == f.cls or not g.cls
        MK = r"findMatchingKey\(" + par(f, 0) + r"\)(\.has_value\(\))?$"
        if any(SEL.q.search(inf["q"]) for g in below(p, f, one) for i, inf in g.calls()):
            chkc = CallPred(r"^fdb5::Rule\w*::check$", args={0: f"^{par(f, 0)}$"})

            def at(d, fr, i):
                if d.get("m") is not True:
                    return "a field is written though the rule does not match"
                if d.get("r") is not False:
                    return "a field is written though another rule matched already"
                if not d.get("c"):
                    return "a field is written before its metadata are checked"
                if not d.get("p"):
                    return "the key of the datum is not among the keys used"

            pathfacts(ctx, "before", f, {"m": MK, "r": par(f, 1) + r"\.(rule_|rule\(\))$"}, "a field is written only if the rule matches, no other did, and its metadata are valid",
                      events={"c": [chkc], "p": [CallPred(r"BaseKey::pushFrom$", obj=f"^{par(f, 2)}$")]}, at=[(SEL, at)], allow=lambda g: own(g) and g.cls == f.cls or not g.cls, need_hits=True, boolean=False)
            pathfacts(ctx, "match", f, {"s": r"\.selectDatum\("}, "a rule is remembered if it was used", boolean=False, allow=one, events={"set": [CallPred(r"WriteVisitor::rule$", args={0: "^this$"})]},
                      check=lambda o, d: "a rule was used and is not remembered" if d.get("s") and not d.get("set") else "a rule is remembered that was not used" if d.get("set") and not d.get("s") else None)
            flows(ctx, "match", f, SEL, {0: r"findMatchingKey\(" + par(f, 0), 1: f"^{par(f, 2)}$"}, "the field is written under the key that the rule found", allow=one)
        else:
            SUB = CallPred(r"^fdb5::Rule\w+::expand$")
            T = {"m": MK, "d": r"\.selectDatabase\(", "s": r"\.selectIndex\(", "n": r"\.createIndex\("}
            top = len(f.params) == 2

            def at(d, fr, i, top=top):
                if d.get("m") is not True:
                    return "the next level is tried though the rule does not match"
                if top and d.get("d") is not True or not top and not (d.get("s") or d.get("n")):
                    return "the next level is tried though its database or index was not selected"

            pathfacts(ctx, "match", f, T, "the next level is tried only if this one matches and was selected", at=[(SUB, at)], allow=one, need_hits=True, boolean=False)
            flows(ctx, "match", f, SDB if top else SIX, {0: r"findMatchingKey\(" + par(f, 0)}, "the level is selected by the key that the rule found", allow=one)
            flows(ctx, "match", f, SUB, {0: f"^{par(f, 0)}$", 1: f"^{par(f, 1)}$"}, "the same field goes to the next level", allow=one)
    for f in [g for g in F(R + "::findMatchingKey") if g.blocks and len(g.params) == 1 and "Key" in g.params[0][2]]:
        pathfacts(ctx, "match", f, {"m": r"\.match\("}, "a key is found only if every part of the rule matches", boolean=False, allow=own, events={"p": [CallPred(r"BaseKey::push$")]},
                  at=[(x, lambda d, fr, i: None if d.get("m") and d.get("p") or "elem(this.predicates_)" not in fr.fn.q and d.get("m") is None and d.get("p") is None else "a part of the rule that does not match, or has no value, is passed over") for x in NEXT],
                  kills=[(NEXT, ["m", "p"])], need_hits=True)
        flows(ctx, "match", f, CallPred(r"BaseKey::push$"), {0: r"elem\(this\.predicates_\)\.keyword", 1: r"elem\(this\.predicates_\).*value\(" + par(f, 0)}, "each part contributes its own value", allow=own)
    for c in sorted({"fdb5::Matcher"} | set(p.subclasses("fdb5::Matcher"))):
        for f in p.byq.get(c + "::match", []):
            if not f.blocks or len(f.params) != 2 or c in ("fdb5::MatchOptional", "fdb5::MatchHidden", "fdb5::ExcludeAll"):
                continue
            if any(x[0] == "return" and x[3] and sym.r(f, x[3][0]) in ("true", "1") for x in f.n) or any(inf["q"].endswith("::find") for g in below(p, f) for i, inf in g.calls()):
                pathfacts(ctx, "match", f, {"f": r"\.find\(.*\)\.second$|!=end\(|end\(.*\)==|==end\("}, "a keyword that is absent does not match", allow=lambda g: g.cls == f.cls or not g.cls,
                          check=lambda o, d: "matches a field without the keyword" if o and d.get("f") is False else None)

    # 4. Rule::check
    for f in [g for g in F(R + "::check") if g.blocks]:
        T = {"eq": r"\.tidy\(.*==|==.*\.tidy\(", "f": r"\.find\(.*\)\.second$|!=end\(|end\(.*==|\.has\(", "par": r"^this\.parent_$"}
        pathfacts(ctx, "every", f, T, "every value is compared with its canonical form, on every level", boolean=False, allow=own, events={"up": [CallPred(r"^fdb5::Rule\w*::check$", obj=r"parent_")]},
                  at=[(x, lambda d, fr, i: "a value that is not canonical is accepted" if d.get("f") and d.get("eq") is not True else None) for x in NEXT], kills=[(NEXT, ["eq", "f"])],
                  check=lambda o, d: None if d.get("par") is False or d.get("up") else "the rules above are not checked")
        flows(ctx, "every", f, CallPred(r"^fdb5::Type\w*::tidy$"), {0: par(f, 0)}, "the value given is checked", obj=r"lookupType\(elem\(this\.predicates_\)\.keyword", allow=own)

    # 5. a rule is found, and once
    for f in [g for g in F("fdb5::Archiver::archive") if g.blocks and len(g.params) == 2]:
        pathfacts(ctx, "every", f, {"r": par(f, 1) + r"\.(rule_|rule\(\))$"}, "a field that no rule matches is an error", boolean=False, allow=lambda g: g.cls == f.cls or not g.cls,
                  events={"e": [CallPred(r"^fdb5::Schema::expand$", args={0: f"^{par(f, 0)}$"})]}, check=lambda o, d: None if d.get("r") is True and d.get("e") or d.get("r0") is False else "a field that no rule matches is accepted")
        ordered(ctx, "every", f, [CallPred(r"WriteVisitor::rule$", args={0: "^null$"})], [CallPred(r"^fdb5::\w*Visitor::selectDatum$")], "the search starts without a rule")

    # 6. nobody writes without validation
    wids = {f.id for f in p.fns.values() if WRITES[1].q.search(f.q) or WRITES[2].q.search(f.q)}
    sids = {f.id for f in p.fns.values() if re.search(r"^fdb5::\w*Store::(archive|archiveCb)$", f.q)}
    names = {"fdb5::Store", "fdb5::CatalogueWriter", "fdb5::Catalogue"}
    fam = set().union(*[{c} | set(p.subclasses(c)) for c in names])
    OK = set(visitors) | {"fdb5::remote::CatalogueHandler", "fdb5::remote::StoreHandler"} | fam
    for f in sorted(p.fns.values(), key=lambda g: g.id):
        if not any(inf["q"].startswith("fdb5::") and any(w.q.search(inf["q"]) for w in WRITES) for i, inf in f.calls()):
            continue
        top = p.family(f)[-1]
        ok = top.cls in OK
        if not ok:
            cs, seen, todo = set(), set(), [top.id]
            while todo:
                k = todo.pop()
                if k in seen:
                    continue
                seen.add(k)
                g = p.fns[k]
                if p.family(g)[-1].cls in OK:
                    cs.add(k)
                    continue
                up = p.callers.get(k, ()) if isinstance(p.callers, dict) else p.callers(k)
                up = list(up)
                if not up:
                    break
                todo += up
            else:
                ok = bool(cs)
        ctx.ob("who", f"{f.q}: writes as a visitor that validates, or as a server whose client validated", ok, f.loc())
    for f in sorted(p.fns.values(), key=lambda g: g.id):
        for i, inf in f.calls():
            if inf["q"] == "fdb5::Schema::expand" and len(f.args(i)) == 2 and "WriteVisitor" in str(inf.get("id", "")) :
                ctx.ob("who", f"{f.q}: schemas are expanded for writing by the archiver only", f.cls == "fdb5::Archiver" or f.cls in p.subclasses("fdb5::Archiver"), f.loc(i))
