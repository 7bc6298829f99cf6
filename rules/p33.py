"""Static decision of "a request considers every database that may hold what it asks for": the candidates (file spaces, roots, rules of the
schema, names of directories) are enumerated completely, and each filter rejects only what cannot match."""
import re

from vt.lib import AssignPred, CallPred, below, expand, flows, guarded, loops_around, must_pass, par, pathfacts
from vt.prog import Sym

TECHNIQUE = "completeness of the loops that enumerate candidates (every element reaches the collecting call unless a listed filter rejects it), path facts of the filters, definite assignment of iterators"
ASSUMPTIONS = ["eckit's Regex matches what it says; readdir lists every entry"]
FLOORS = {"spaces": 4, "rules": 4, "names": 4, "scan": 3, "lanes": 20}

NEXT = [CallPred(r"iterator\w*::operator\+\+$"), AssignPred(r"^local:", None, ("++", "p++", "+="))]
INS = r"std::(set|map|vector|list|multimap|unordered_map|unordered_set|deque)::(insert|emplace|push_back|emplace_back|insert_or_assign|try_emplace)$"


def run(ctx):
    p = ctx.p
    F = p.find
    sym = Sym(p)
    RM = "fdb5::RootManager"
    own = lambda g: g.cls in (RM, "fdb5::FileSpace", "fdb5::Root", "fdb5::CatalogueRootManager", "fdb5::StoreRootManager") or not g.cls
    flat = lambda g: g.cls == RM or not g.cls

    # 1. file spaces and roots
    for f in F(RM + "::visitableRoots"):
        EN = CallPred(r"^fdb5::FileSpace::enabled$")
        if "std::set" in f.params[0][2]:
            # a space is passed over only if the regex rejects every key, and no key has unknown values
            OUT = [CallPred(r"iterator\w*::operator\+\+$", obj=r"spacesTable_"), AssignPred(r"spacesTable_", None, ("++", "p++", "+="))]
            pathfacts(ctx, "spaces", f, {"m": r"elem\(this\.spacesTable_\)\.(re_\.)?match\(", "z": r"^empty\(elem\((?!.*spacesTable_).*\)\)$"}, "every file space is considered unless its regex excludes the keys", events={"e": [EN]}, boolean=False, allow=flat,
                      kills=[([OUT[0]], ["m", "e", "z"])], at=[(x, lambda d, fr, i: "a space whose regex matches a key is passed over" if (d.get("m") or d.get("z")) and not d.get("e") else None) for x in OUT], need_hits=True)
            tests = []
            for g in below(p, f, flat):
                for i, inf in g.calls():
                    if re.search(r"::empty$|^std::operator==$", inf["q"]):
                        o = sym.r(g, g.obj(i)) if g.obj(i) is not None else ""
                        tests.append(expand(sym, g, o))
            partial = any(re.search(r"elem\(elem\(" + par(f, 0) + r"\)\)\.second|elem\(elem\(.*\)\)|elem\(.*\)\.second", t) for t in tests)
            ctx.ob("spaces", f"{f.q}: a regex is not applied to keys some values of which are unknown", partial, f.loc(), f"emptiness tests: {sorted(set(tests))[:6]}")
            flows(ctx, "spaces", f, EN, {0: r"ControlIdentifier::List$", 1: r"^local:"}, "the roots that may be listed are taken", obj=r"elem\(this\.spacesTable_\)|iter\(this\.spacesTable_\)|param:", allow=flat)
        elif "MarsRequest" in f.params[0][2]:
            flows(ctx, "spaces", f, CallPred(r"Schema::matchDatabase$"), {0: "^" + par(f, 0) + "$"}, "the rules of the schema are applied to the request", allow=flat)
            must_pass(ctx, "spaces", f, [CallPred(INS, args={0: r"elem\("})], what="every key the schema makes of the request is considered", forall=re.compile(r"local:\w+"), allow=lambda g: not g.cls)
    for f in F("fdb5::FileSpace::enabled"):
        if len(f.params) != 2:
            continue
        must_pass(ctx, "spaces", f, [CallPred(INS)], what="every root enabled for the action is taken", forall=re.compile(r"roots_"), allow=own, sanction=[(r"\.enabled\(|has\(", False), (r"\.exists\(\)|exists_", False), (r"controlIdentifiers_.*&", True)])
        flows(ctx, "spaces", f, CallPred(INS), {0: r"elem\(this\.roots_\)|iter\(this\.roots_\)"}, "the roots taken are those of the space", obj=par(f, 1), allow=own)
    for f in F(RM + "::fileSpaces"):
        must_pass(ctx, "spaces", f, [CallPred(INS, args={0: r"FileSpace\("}), CallPred(r"FileSpace::<ctor>$")], what="every configured space is known", forall=re.compile(r'getSubConfigurations\(.*"spaces"'), allow=lambda g: g.cls == RM, sanction=[(r"has\(.*\"spaces\"", False), (r"empty\(.*@", False)])
        must_pass(ctx, "spaces", f, [CallPred(r"^fdb5::Root::<ctor>$")], what="every configured root is known", forall=re.compile(r"getSpaceRoots\("), allow=lambda g: g.cls == RM, sanction=[(r"has\(.*\"spaces\"", False), (r"empty\(.*@", False), (r"getBool\(.*marsDisks", True), (r"^atend\((?!.*getSpaceRoots)", True)])
        R = CallPred(r"^fdb5::Root::<ctor>$", args={0: r'"path"'})
        flows(ctx, "spaces", f, R, {k: r'\.getBool\((const )?std::basic_string<[^"]*\("' + n + '"' for k, n in ((2, "list"), (3, "retrieve"), (4, "archive"), (5, "wipe"))}, "each kind of access is configured by its own option", allow=flat)
    for f in F("fdb5::Root::<ctor>"):
        if len(f.params) < 6:
            continue
        pairs = list(zip(("List", "Retrieve", "Archive", "Wipe"), (2, 3, 4, 5)))
        ev = {n: [AssignPred(r"controlIdentifiers_$", n, ("|=", "="))] for n, _ in pairs}
        calls = {n: [CallPred(r"ControlIdentifiers::operator\|=$", args={0: rf"ControlIdentifier::{n}$"})] for n, _ in pairs}
        pathfacts(ctx, "spaces", f, {f"p{n}": "^" + par(f, k) + "$" for n, k in pairs}, "a root forbids exactly what it is told to", events=calls, boolean=False, allow=lambda g: g.cls == f.cls or not g.cls,
                  check=lambda o, d: next((f"{n}: forbidden and allowed are confused" for n, _ in pairs if bool(d.get(n)) == bool(d.get(f"p{n}"))), None))

    # 2. rules of the schema
    for f in F("fdb5::Schema::matchDatabase"):
        if len(f.params) < 3:
            continue
        one = lambda g: g.cls == f.cls or not g.cls
        key = "Key" in f.params[0][2] and "MarsRequest" not in f.params[0][2]
        must_pass(ctx, "rules", f, [CallPred(r"Rule\w*::findMatchingKeys?$")], what=f"every rule is considered ({'key' if key else 'request'})", forall=re.compile(r"rules_"), allow=one)
        flows(ctx, "rules", f, CallPred(r"Rule\w*::findMatchingKeys?$"), {0: "^" + par(f, 0) + "$", 1: "^" + par(f, 2) + "$"}, f"each rule is applied to what was asked for ({'key' if key else 'request'})", obj=r"elem\(this\.rules_\)|iter\(this\.rules_\)|param:", allow=one)
        ADD = CallPred(r"^std::map::(operator\[\]|insert|emplace|insert_or_assign|try_emplace)$", obj="^" + par(f, 1) + "$")
        if key:
            pathfacts(ctx, "rules", f, {"k": r"findMatchingKey\(|local:\w*key\w*$"}, "a rule that matches the key is taken", events={"a": [ADD]}, kills=[(NEXT, ["k", "a"])], allow=one, boolean=True,
                      at=[(x, lambda d, fr, i: "a matching rule is passed over" if d.get("k") and not d.get("a") else None) for x in NEXT])
        else:
            must_pass(ctx, "rules", f, [ADD], what="every key a rule makes of the request is taken", forall=re.compile(r"findMatchingKeys\("), allow=one)
    for f in F("fdb5::Rule::findMatchingKeys"):
        if len(f.params) != 2 or "char" not in f.params[1][2]:
            continue
        one = lambda g: g.cls in (f.cls, "fdb5::RuleGraph") or not g.cls
        must_pass(ctx, "rules", f, [CallPred(r"RuleGraph::push$")], what="every predicate contributes", forall=re.compile(r"predicates_"), allow=lambda g: g.cls == f.cls or not g.cls, sanction=[(r"^empty\(.*\)$", True)])
        MISS = CallPred(INS, args={0: "^" + par(f, 1) + "$"})
        VAL = CallPred(INS, args={0: r"elem\("})
        pathfacts(ctx, "rules", f, {"h": r"\.has\(.*keyword", "m": r"\.match\(elem\("}, "a keyword the request leaves out may have any value, any other one the values given that match", events={"v": [VAL], "x": [MISS]},
                  kills=[(NEXT, ["m", "v", "x", "h"])], allow=one,
                  at=[(MISS, lambda d, fr, i: None if d.get("h") is False else "a keyword that was given is ignored"), (VAL, lambda d, fr, i: None if d.get("m") else "a value that the rule excludes is taken")]
                  + [(x, lambda d, fr, i: "a matching value is left out" if d.get("m") and not d.get("v") else "a keyword that was left out makes the rule fail" if d.get("h") is False and not d.get("x") else None) for x in NEXT], need_hits=True)
    for f in F("fdb5::Rule::findMatchingKey"):
        if len(f.params) != 2 or "char" not in f.params[1][2]:
            continue
        PUSH = CallPred(r"::push$")
        pathfacts(ctx, "rules", f, {"m": r"\.match\("}, "every predicate contributes", events={"p": [PUSH]}, kills=[(NEXT, ["m", "p"])], allow=lambda g: g.cls == f.cls or not g.cls, boolean=False, need_hits=True,
                  at=[(x, lambda d, fr, i: None if d.get("p") else "a keyword of the rule is left out of the key") for x in NEXT])

    # 3. names of directories
    N = "fdb5::DbPathNamer"
    nown = lambda g: g.cls in (RM, N) or not g.cls
    for f in F(RM + "::possibleDbPathNames"):
        PART = CallPred(N + "::namePartial$")
        PB = CallPred(INS, args={0: r"namePartial\(|substituteVars\("})
        must_pass(ctx, "names", f, [PART], what="every namer that may have named the database is considered", forall=re.compile(r"dbPathNamers_"), allow=flat, sanction=[(r"\.match\(", False)])
        flows(ctx, "names", f, PART, {0: "^" + par(f, 0) + "$", 1: "^" + par(f, 1) + "$"}, "names are made for the key", obj=r"elem\(this\.dbPathNamers_\)|iter\(this\.dbPathNamers_\)|param:", allow=flat)
        flows(ctx, "names", f, CallPred(N + "::match$"), {0: "^" + par(f, 0) + "$", 1: "^" + par(f, 1) + "$"}, "namers are chosen knowing which values are missing", allow=flat)
        pathfacts(ctx, "names", f, {}, "the default name is always considered", allow=flat, events={"d": [CallPred(INS, args={0: r"\.str\(\)|local:|default|param:"})]}, boolean=False, check=lambda o, d: None if d.get("d") else "the default name is left out",
                  kills=[([PART], ["d"])])
        # what was made is kept
        for g in below(p, f, flat):
            for i, inf in g.calls():
                if PART.q.search(inf["q"]):
                    kept = [j for j, c in g.calls() if re.search(INS, c["q"]) and g.args(j) and re.search(r"namePartial\(|substituteVars\(", expand(sym, g, sym.r(g, g.args(j)[-1])))]
                    ctx.ob("names", f"{f.q}: the names made are kept", bool(kept), g.loc(i))
        # the default name: each value, or the wildcard for a missing one
        for g in below(p, f, flat):
            for i, x in enumerate(g.n):
                if x[0] == "cond":
                    c, a, b = (sym.r(g, y) for y in x[3][:3])
                    m = re.escape(sym.r(g, x[3][1]))
                    if re.search(r"param:\w*missing\w*($|,)|^" + par(f, 1) + r"$|\(" + par(f, 1) + ",", a) and not re.search(r"missing|^" + par(f, 1) + "$", b):
                        at = sym.formula(g, x[3][0])
                        txt = str(at)
                        ctx.ob("names", f"{f.q}: the wildcard stands for every missing value", "empty(" in txt, g.loc(i), f"{c} ? {a} : {b}")
                        ctx.ob("names", f"{f.q}: the wildcard stands for missing values only", b in txt or expand(sym, g, b) in txt, g.loc(i), f"{c} ? {a} : {b}")
    for f in F(N + "::match"):
        RX = CallPred(r"^eckit::Regex::match$")
        K = {"s": r"keyregex_\.size\(\)==|==.*keyregex_\.size\(\)", "k": r"^end\(this\.keyregex_\)==|==end\(this\.keyregex_\)|keyregex_\.(count|contains)\(", "m": r"elem\(.*\)\.second==.*missing|missing.*==|==" + par(f, 1), "r": r"\.match\(", "n": "^" + par(f, 1) + "$", "e": r"^empty\(.*second\)$|second\.empty\(\)"}
        pathfacts(ctx, "names", f, K,
                  "a namer is rejected only for other keywords or a value that its regex excludes", boolean=False, allow=lambda g: g.cls == N or not g.cls, kills=[(NEXT, ["k", "m", "r", "e"])], need_hits=False,
                  check=lambda o, d: "a namer is rejected though nothing excludes it" if o == "false" and not (d.get("s") is False or d.get("k") is True or d.get("r") is False) else None,
                  at=[(RX, lambda d, fr, i: None if d.get("n") is False or (d.get("m") is False and d.get("e") is False) else "a value that is not known is tested against the regex of the namer")])
    for f in F(N + "::substituteVars"):
        one = lambda g: g.cls == N or not g.cls
        APP = CallPred(r"std::basic_string::(operator\+=|append)$", obj=r"^local:")
        VALUE = CallPred(APP.q.pattern, obj=APP.obj if hasattr(APP, "obj") else None)
        pathfacts(ctx, "names", f, {"m": r"^param:missing$|^" + par(f, 2) + "$", "e": r"\.second==" + par(f, 2) + "|" + par(f, 2) + r"==.*second", "z": r"^empty\(.*second\)$|second\.empty\(\)"},
                  "a value that is known is used, a missing one is left open", boolean=False, allow=one, kills=[(NEXT, ["e", "z"])],
                  at=[(CallPred(APP.q.pattern, args={0: r"keyregex_"}), lambda d, fr, i: None if d.get("e") is True or d.get("z") is True else "a value that is known is replaced by a wildcard"),
                      (CallPred(APP.q.pattern, args={0: r"^(?!.*keyregex_).*second"}), lambda d, fr, i: "the marker of a missing value is used as a value" if d.get("m") is not False and (d.get("e") is True or d.get("z") is True) else None)])
    # 4. the scan
    T = "fdb5::TocEngine"
    for f in F(T + "::scan_dbs"):
        PB = CallPred(INS, obj="^" + par(f, 1) + "$")
        ISD = r"ISDIR|61440|0170000|16384"
        DOT = r"d_name"
        KIND = {"dir": r"(DT_DIR|^4)==.*d_type$|d_type==(DT_DIR|4)$", "unk": r"(DT_UNKNOWN|^0)==.*d_type$|d_type==(DT_UNKNOWN|0)$", "sd": r"st_mode.*(61440|16384|0170000)|(61440|16384).*st_mode", "dot": r"46==.*d_name|d_name.*==46|'\.'", "st": r"Stat::stat\(|^0==.*stat\("}
        pathfacts(ctx, "scan", f, KIND, "every directory is a candidate", events={"c": [PB]}, boolean=False, allow=lambda g: g.cls == T or not g.cls, kills=[([CallPred(r"StdDir::dirent$|^readdir$")], ["c", *KIND])],
                  at=[(CallPred(r"StdDir::dirent$|^readdir$"), lambda d, fr, i: None if d.get("c") or not any(k in d for k in KIND) or d.get("dot") or (d.get("dir") is False and d.get("unk") is False) or d.get("sd") is False or "st" in d and "sd" not in d else "an entry that is or may be a directory is passed over")], need_hits=True)
    for f in F(T + "::databases"):
        one = lambda g: g.cls == T or not g.cls
        if "std::map" in f.params[0][2]:
            SC = CallPred(T + "::scan_dbs$")
            must_pass(ctx, "scan", f, [SC], what="every root is searched", forall=re.compile(par(f, 1)), allow=one)
            flows(ctx, "scan", f, SC, {0: r"elem\(" + par(f, 1) + r"\)|iter\(" + par(f, 1)}, "the roots given are searched", allow=lambda g: g.q != T + "::scan_dbs" and one(g))
            PN = CallPred(r"RootManager::possibleDbPathNames$")
            must_pass(ctx, "scan", f, [PN], what="every key is looked for", forall=re.compile(par(f, 0)), allow=lambda g: g.q != T + "::scan_dbs" and one(g))
            RX = CallPred(r"^eckit::Regex::match$")
            must_pass(ctx, "scan", f, [RX], what="every possible name is looked for in what was found", forall=re.compile(r"possibleDbPathNames\("), allow=lambda g: g.q != T + "::scan_dbs" and one(g), sanction=[(r"\.(find|count|contains)\(", None), (r"atend\(", True)])
            ADD = CallPred(r"^std::map::(operator\[\]|insert|emplace|insert_or_assign|try_emplace)$")
            pathfacts(ctx, "scan", f, {"x": r"\.match\("}, "what matches is a candidate, and nothing else is", events={"a": [ADD]}, kills=[(NEXT, ["x", "a"])], allow=lambda g: g.q != T + "::scan_dbs" and one(g),
                      at=[(ADD, lambda d, fr, i: None if d.get("x") else "something that does not match is taken")] + [(x, lambda d, fr, i: "a match is passed over" if d.get("x") and not d.get("a") else None) for x in NEXT], need_hits=True)
        else:
            PB = CallPred(INS, args={0: r"URI\("})
            pathfacts(ctx, "scan", f, {"m": r"\.(match|partialMatch)\("}, f"databases that match are returned ({'key' if 'MarsRequest' not in f.params[0][2] else 'request'})", events={"a": [PB]}, kills=[(NEXT, ["m", "a"])],
                      allow=lambda g: (g.q == f.q and "std::map" not in g.params[0][2]) or (not g.cls), at=[(PB, lambda d, fr, i: None if d.get("m") else "a database that does not match is returned")] + [(x, lambda d, fr, i: "a database that matches is left out" if d.get("m") and not d.get("a") else None) for x in NEXT], need_hits=True)
    for f in F(T + "::visitableLocations"):
        flows(ctx, "scan", f, CallPred(T + "::databases$"), {0: "^" + par(f, 0) + "$", 1: r"visitableRoots\(.*" + par(f, 0)}, f"all visitable roots are searched ({'request' if 'MarsRequest' in f.params[0][2] else 'key'})", allow=lambda g: g.q == f.q)
    for f in F("fdb5::Manager::visitableLocations"):
        VL = CallPred(r"Engine::visitableLocations$")
        must_pass(ctx, "scan", f, [VL], what="every engine is asked", forall=re.compile(r"engines"), allow=lambda g: g.cls == f.cls or not g.cls)
        must_pass(ctx, "scan", f, [CallPred(r"^std::vector::(insert|push_back|emplace_back)$"), CallPred(r"^std::(copy|move)$")], what="what every engine found is returned", forall=re.compile(r"engines"), allow=lambda g: g.q == f.q or not g.cls)
    for f in F("fdb5::EntryVisitMechanism::visit"):
        VE = CallPred(r"^fdb5::Catalogue\w*::visitEntries$")
        vown = lambda g: g.cls == f.cls or not g.cls
        pathfacts(ctx, "scan", f, {"p": r"\.preVisitDatabase\(", "end": r"^atend\(.*visitableLocations\(|^atend\(local:uris", "fail": r"^this\.fail_$"}, "every database found is visited unless the visitor declines", events={"v": [VE]}, kills=[(NEXT, ["p", "v"])], boolean=False, allow=vown, exc=True,
                  at=[(x, lambda d, fr, i: "a database found is passed over" if d.get("p") is not False and not d.get("v") else None) for x in NEXT], need_hits=True,
                  check=lambda o, d: None if d.get("end") is True or d.get("fail") is False else "the visit ends before every database was considered")

    # 5. iterators used are assigned
    for g in sorted((g for g in p.fns.values() if g.file.startswith("fdb5/") and g.blocks), key=lambda g: g.id):
        for i, x in enumerate(g.n):
            if x[0] != "var" or "iterator" not in x[2]["t"] or any(k is not None and k >= 0 for k in x[3][:1]) and not _defaulted(g, x):
                continue
            name = x[2]["d"]
            asg = any(y[0] == "assign" and y[3] and _isref(g, y[3][0], name) for y in g.n) or any(inf["q"].endswith("operator=") and (_isref(g, g.obj(j), name) or g.args(j) and _isref(g, g.args(j)[0], name)) for j, inf in g.calls())
            used = any(y[0] == "ref" and y[2][2] == name for y in g.n)
            ctx.ob("names", f"{g.q}: iterator {x[2]['n']} is assigned before use", asg or not used, g.loc(i))

    # 6. lanes of a select FDB
    SEL = "fdb5::SelectFDB"
    sown = lambda g: g.cls in (SEL, SEL + "::FDBLane", "fdb5::FDBLane") or not g.cls or g.kind == "lambda"
    for f in F(SEL + "::queryInternal"):
        flows(ctx, "lanes", f, CallPred(r"(SelectMatcher|Matcher)::match$"), {0: "^" + par(f, 0) + r"\.request", 1: r"Matcher::MatchOnMissing$"}, "a keyword the request leaves out does not exclude a lane", allow=sown)
    for f in F(SEL + "::inspect"):
        flows(ctx, "lanes", f, CallPred(r"(SelectMatcher|Matcher)::match$"), {0: "^" + par(f, 0) + "$"}, "lanes are chosen by the request", allow=sown)
    for f in F("fdb5::SelectMatcher::match") + F("fdb5::SelectMatcher::matchInner"):
        mown = lambda g: g.cls == "fdb5::SelectMatcher" or not g.cls or g.kind == "lambda"
        M = r"^metkit::mars::Matcher::match$"
        SELM, EXC = CallPred(M, obj=r"select_"), CallPred(M, obj=r"excludes_|param:")
        flows(ctx, "lanes", f, SELM, {1: "^" + par(f, 1) + "$"}, "missing keywords are treated as the caller says", allow=mown)
        if any(re.match(M, inf["q"]) for _, inf in f.calls()):
            pathfacts(ctx, "lanes", f, {"s": r"select_\.match\(", "x": r"excludes_\)?\)*\.match\(|(any_of|none_of|find_if)\(.*excludes_|\w*[eE]xclude\w*\("}, "a lane is rejected only if it does not select the request or excludes it", boolean=True, allow=mown,
                      check=lambda o, d: "a lane is rejected though nothing excludes it" if o is False and d.get("s") is not False and "x" not in d else None)
        for g in sorted({x.id: x for y in [f] for z in below(p, y, mown) for x in [z] + p.lambdas_of(z)}.values(), key=lambda x: x.id):
            for i, inf in g.calls():
                if re.match(M, inf["q"]) and "select_" not in (sym.r(g, g.obj(i)) if g.obj(i) is not None else ""):
                    a = [sym.r(g, x) for x in g.args(i)]
                    ctx.ob("lanes", f"{f.q}: an unknown value excludes nothing", len(a) > 1 and a[1].endswith("Matcher::DontMatchOnMissing"), g.loc(i), str(a))
    for f in F("fdb5::SelectMatcher::<ctor>"):
        if len(f.params) != 1 or "LocalConfiguration" not in f.params[0][2]:
            continue
        for g in below(p, f, lambda g: g.cls == f.cls or not g.cls):
            for i, inf in g.calls():
                if inf["q"] == "metkit::mars::Matcher::<ctor>" and len(g.args(i)) == 2:
                    a = [expand(sym, g, sym.r(g, x)) for x in g.args(i)]
                    sel = '"select"' in a[0]
                    ctx.ob("lanes", f"{f.q}: {'a lane is selected if any' if sel else 'and excluded only if every'} value matches", a[1].endswith("Policy::Any" if sel else "Policy::All"), g.loc(i), str(a))
    seen = set()
    for f in F("fdb5::APIAggregateIterator::next"):
        if f.id in seen:
            continue
        seen.add(f.id)
        POP = CallPred(r"^std::(queue|deque|list|vector)::(pop|pop_front|erase)$", obj="iterators_")
        pathfacts(ctx, "lanes", f, {"e": r"^empty\(this\.iterators_\)$", "n": r"iterators_.*\.next\("}, "the results of every lane are returned", boolean=True, allow=lambda g: g.cls == f.cls or not g.cls, kills=[([POP], ["n", "e"])],
                  at=[(POP, lambda d, fr, i: None if d.get("n") is False else "the rest of a lane is dropped")],
                  check=lambda o, d: "the end is reported while a lane is left" if o is False and d.get("e") is not True else "an element is reported though there is none" if o is True and d.get("n") is not True else None)


def _defaulted(g, x):
    k = x[3][0]
    y = g.n[k]
    return y[0] == "call" and "<ctor>" in y[2]["q"] and not g.args(k)


def _isref(g, k, d):
    while k is not None and k >= 0 and g.n[k][0] == "cast":
        k = g.n[k][3][0]
    return k is not None and k >= 0 and g.n[k][0] == "ref" and g.n[k][2][2] == d
