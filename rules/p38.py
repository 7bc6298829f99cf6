"""P38 an existing database is interpreted with the schema stored in it"""
import re

from vt.engine import Frame
from vt.lib import AssignPred, CallPred, below, expand, flows, guarded, last, must_pass, ordered, par
from vt.prog import Sym

TECHNIQUE = "value-provenance analysis of schemas and rules: where each catalogue's schema comes from, which schema every reading, writing and administrative path consults, and which paths may replace a stored schema"
FLOORS = {"stored-schema": 6, "interpreted": 8, "configured-schema": 6, "replaced": 2, "fresh": 1}
ASSUMPTIONS = ["a file whose device, inode, size and modification time are unchanged has unchanged contents"]

# results of Config::schema may be used to find the databases a request speaks of, to describe the configuration and to name steps
CONFIGURED = re.compile(r"^fdb5::Schema::(expand|matchDatabase|expandDatabase|dump|registry|lookupType|path|empty|encode|print)$|^(fdb5|eckit)::operator<<$|"
                        r"^fdb5::\w*Visitor::preVisitDatabase$|^fdb5::\w*Engine::\w+$|^fdb5::.*@fdb5/\w+/\w*Engine\.cc$")
# how the configured schema looks once getters have been inlined
CFG = r"(?:SchemaRegistry::instance\(\)\.\w+\((?!.*this\.schemaPath_).*\.schemaPath\(\)\)|[cC]onfig\w*(?:\(.*\))?\.schema\(\))"
STAT = re.compile(r"(^|::)(stat|stat64|fstat|lstat|fstatat|statx|lastModified|lastModification|created|last_write_time|file_size|sameAs|FileDescriptor)$|::PathName::size$|LocalPathName::size$|hash|ifstream")


def run(ctx):
    p = ctx.p
    sym = Sym(p)
    sub = lambda b: sorted(c for c in p.classes if b in p.superclasses(c))
    catalogues = sub("fdb5::Catalogue")
    fns = lambda q: [f for f in p.byq.get(q, []) if f.blocks]
    own = lambda cls: (lambda g: g.cls == cls or g.cls in p.superclasses(cls) or (not g.cls and g.file == p.byq[cls + "::loadSchema"][0].file))

    # 1. what loading a schema yields
    roots = [f for c in catalogues for f in fns(c + "::loadSchema") if not any(inf["q"].startswith("eckit::NotImplemented") for _, inf in f.calls())]
    ctx.need(len(roots) >= 3, "implementations of loadSchema not found")
    for f in roots:
        inside = below(p, f, own(f.cls))
        for g in inside:
            for i, inf in g.calls():
                if inf["q"] in ("fdb5::Config::schema", "fdb5::Config::schemaPath"):
                    if "Writer" in g.cls and "Fam" in g.cls:
                        continue
                    ctx.ob("stored-schema", f"{f.q}: not the configured schema", False, g.loc(i), "the schema of an existing database is taken from the configuration")
        short = last(f.cls)
        if short == "TocCatalogue":
            must_pass(ctx, "stored-schema", f, [], assigns=[AssignPred(r"^this\.schema_$", r"SchemaRegistry::instance\(\)\.\w+\([^()]*(\(this\.schemaPath_\)|this\.schemaPath_)\)")],
                      what="the schema is that of the file in the database's directory")
            fresh(ctx, p, sym, f)
        elif short == "DaosCatalogue":
            flows(ctx, "stored-schema", f, CallPred(r"DaosKeyValue::get$"), {0: r'"schema"'}, "the schema is read from the database's catalogue")
            ordered(ctx, "stored-schema", f, [CallPred(r"DaosKeyValue::get$", args={0: r'"schema"'})], [CallPred(r"^fdb5::Schema::load$", obj=r"^this\.schema_$")],
                    "the schema loaded is the one read")
            for g in inside:
                for i, inf in g.calls():
                    if last(inf["q"]) == "<ctor>" and inf["q"].startswith("fdb5::DaosKeyValueName"):
                        r = [sym.r(g, a) for a in g.args(i)]
                        ctx.ob("stored-schema", f"{g.q}: key-value of the database", r == ["this.pool_", "this.db_cont_", "this.catalogue_kv_"], g.loc(i), str(r))
        elif short == "RemoteCatalogue":
            remote(ctx, p, sym, f)
        elif short == "FamCatalogue":
            must_pass(ctx, "stored-schema", f, [CallPred(r"dumpSchema$")], what="the schema is the one stored")
            for g in fns("fdb5::FamCatalogueReader::dumpSchema") + fns("fdb5::FamCatalogueWriter::dumpSchema"):
                must_pass(ctx, "stored-schema", g, [CallPred(r"::find$", args={0: r"schema"})], what="the stored schema is looked for first")
        else:
            ctx.ob("stored-schema", f"{f.q}: source of the schema", False, f.loc(), "a catalogue whose schema comes from a place that is not known to belong to the database")
        if short != "RemoteCatalogue":
            must_pass(ctx, "stored-schema", f, [], assigns=[AssignPred(r"^this\.rule_$", r"^this\.schema_\.matchingRule\(this\.dbKey_\)$|SchemaRegistry::instance\(\)\.\w+\(.*\.matchingRule\(this\.dbKey_\)$")],
                      what="the rule is the one for the database's key in this schema")
            ordered(ctx, "stored-schema", f, [CallPred(r"^fdb5::Schema::load$")], [], "the rule is looked up in the schema just obtained", need_then=False,
                    fassign=[AssignPred(r"^this\.schema_$")], tassign=[AssignPred(r"^this\.rule_$")])
    # nobody else sets them; they are what the accessors return
    for c in catalogues:
        for name, mem in (("schema", "schema_"), ("rule", "rule_")):
            for f in fns(f"{c}::{name}"):
                if any(inf["q"].startswith("eckit::NotImplemented") for _, inf in f.calls()):
                    continue
                rets = [sym.r(f, x[3][0]) for x in f.n if x[0] == "return" and x[3]]
                ok = bool(rets) and all(re.match(rf"^(this\.{mem}|this\.{mem}(\.get\(\)|\.value\(\)))$", r) for r in rets)
                ctx.ob("stored-schema", f"{f.q}: returns the schema that was loaded" if name == "schema" else f"{f.q}: returns the rule that was loaded", ok, f.loc(), str(rets)[:200])
    for f in p.fns.values():
        if not f.cls or not any(f.cls == c for c in catalogues):
            continue
        for i, x in enumerate(f.n):
            t = v = None
            if x[0] == "assign":
                t, v = x[3]
            elif x[0] == "call" and x[2]["k"] in ("op", "m") and last(x[2]["q"]) in ("operator=", "reset", "emplace") and f.obj(i) is not None and f.args(i):
                t, v = f.obj(i), f.args(i)[0]
            if t is None:
                continue
            s = sym.r(f, t)
            if s in ("this.schema_", "this.rule_"):
                r = sym.r(f, v)
                good = {"this.schema_": r"fetchSchema|SchemaRegistry::instance\(\)\.\w+\(.*schemaPath_", "this.rule_": r"matchingRule\(this\.dbKey_\)\)?$|^null$|nullopt"}[s]
                helper = re.match(r"^this\.\w+\(", r) or re.search(r"reanimate|Schema\(", r)
                ctx.ob("stored-schema", f"{f.q}: {s[5:]} set from the stored schema", bool(re.search(good, r) or helper and "config" not in r), f.loc(i), r[:200])

    # 2. a catalogue that is handed out has loaded its schema
    for c in catalogues:
        w, r = "fdb5::CatalogueWriter" in p.superclasses(c), "fdb5::CatalogueReader" in p.superclasses(c)
        if "Remote" in c or "Null" in c:
            continue
        if w:
            for f in fns(c + "::<ctor>"):
                if f.d.get("implicit") or any(c in a[2] for a in f.params) or any(inf["q"].startswith("eckit::NotImplemented") for _, inf in f.calls()):
                    continue
                must_pass(ctx, "interpreted", f, [CallPred(r"::loadSchema$")], what=f"the schema is loaded by the constructor for {'/'.join(last(a[2].split(' &')[0]) for a in f.params)}")
                ordered(ctx, "interpreted", f, [CallPred(r"::(writeInitRecord|copyTo|initCatalogue|insertOrAssign|DaosKeyValue::has|DaosKeyValue::size)$")], [CallPred(r"::loadSchema$")],
                        f"loaded once the database exists ({'/'.join(last(a[2].split(' &')[0]) for a in f.params)})")
        if r:
            for f in fns(c + "::open"):
                must_pass(ctx, "interpreted", f, [CallPred(r"::loadSchema$")], sanction=[(r"exists\(", False)], what="a database that was opened has its schema loaded")

    # 3. who consults the configured schema, and for what
    users = set()
    for f in p.fns.values():
        for i, inf in f.calls():
            if inf["q"] == "fdb5::Config::schema":
                users.add(f.id)
    ctx.need(users, "no use of the configured schema")
    grow = list(users)
    while grow:
        f = p.fns[grow.pop()]
        if f.q != "fdb5::Config::schema" and any(x[0] == "return" and x[3] and re.search(CFG + "$", sym.r(f, x[3][0])) for x in f.n):
            for k in p.callers.get(f.id, ()):
                if k not in users:
                    users.add(k)
                    grow.append(k)
    for k in sorted(users):
        f = p.fns[k]
        bad, n = [], 0
        for i, inf in f.calls():
            o = f.obj(i)
            a = f.args(i)
            rendered = [("obj", o)] if o is not None else []
            rendered += [("arg", x) for x in a]
            for _, x in rendered:
                s = sym.r(f, x)
                if re.search(CFG + "$", s):
                    n += 1
                    if not CONFIGURED.match(inf["q"]):
                        bad.append((f.loc(i), f"{inf['q']} consults the configured schema"))
                elif re.search(CFG + r"\.(matchingRule|rules?)\(", s):
                    bad.append((f.loc(i), f"{inf['q']} applied to {s[:120]}"))
        for i, x in enumerate(f.n):
            if x[0] == "assign" and re.search(CFG, sym.r(f, x[3][1])) and sym.r(f, x[3][0]).startswith("this."):
                bad.append((f.loc(i), f"{sym.r(f, x[3][0])} keeps the configured schema"))
        if f.q.startswith("fdb5::remote::CatalogueHandler::"):
            server(ctx, p, sym, f)
        ctx.ob("configured-schema", f"{f.q}: the configured schema only finds databases", not bad, bad[0][0] if bad else f.loc(), "; ".join(b[1] for b in bad[:2]) if bad else f"{n} use(s)")
        ctx.functions.add(f.q)

    # 4. fields are placed and found with the rules of the database's schema
    for f in p.fns.values():
        if f.name == "databaseSchema" and f.blocks:
            rets = [sym.r(f, x[3][0]) for x in f.n if x[0] == "return" and x[3]]
            ok = bool(rets) and all(re.match(r"^this\.catalogue(_|\(\))(\.get\(\))?\.schema\(\)$", r) for r in rets)
            ctx.ob("interpreted", f"{f.q}: the schema of the database that is open", ok, f.loc(), str(rets)[:200])
    for f in fns("fdb5::RuleDatabase::expand"):
        expands(ctx, p, sym, f)
    for f in fns("fdb5::EntryVisitor::visitDatabase"):
        must_pass(ctx, "interpreted", f, [], assigns=[AssignPred(r"^this\.rule_$", rf"^(this\.currentCatalogue_|param:{f.params[0][0]})\.rule\(\)$")],
                  what="the rule of a database is that of its own schema")
    for f in fns("fdb5::EntryVisitor::visitIndex"):
        i0 = f.params[0][0]
        must_pass(ctx, "interpreted", f, [], assigns=[AssignPred(r"^this\.rule_$", rf"^this\.currentCatalogue_\.schema\(\)\.matchingRule\(this\.currentCatalogue_\.(key\(\)|dbKey_),(this\.currentIndex_|param:{i0})\.(content_\.key_|key\(\))\)$")],
                  what="the rule of an index is found in the schema of its database")
    visitors = [c for c in sub("fdb5::EntryVisitor") if c != "fdb5::EntryVisitor"]
    for c in visitors:
        for name in ("visitIndex", "visitDatabase"):
            for f in fns(f"{c}::{name}"):
                if any(inf["q"].startswith("eckit::NotImplemented") for _, inf in f.calls()):
                    continue
                if not uses_rule(p, sym, c):
                    continue
                base = rf"::{name}$"
                must_pass(ctx, "interpreted", f, [CallPred(base)], sanction=[(r"enabled\(", False), (r"^\d<this\.level_$", False)], what="the visitor takes the rule before it interprets entries",
                          allow=lambda g, c=c: g.cls == c)
    # no other rule than this one
    for c in visitors + ["fdb5::EntryVisitor"]:
        for f in p.fns.values():
            if f.cls != c:
                continue
            for i, x in enumerate(f.n):
                if x[0] == "assign" and sym.r(f, x[3][0]) == "this.rule_":
                    v = sym.r(f, x[3][1])
                    ok = v == "null" or re.search(r"^this\.currentCatalogue_\.(rule\(\)|schema\(\)\.matchingRule\()|^param:\w+\.(rule\(\)|schema\(\)\.matchingRule\()", v)
                    ctx.ob("interpreted", f"{f.q}: rule taken from the catalogue", bool(ok), f.loc(i), v[:160])

    # 5. a stored schema is written once
    for f in fns("fdb5::TocHandler::writeInitRecord"):
        guarded(ctx, "replaced", f, [CallPred(r"^eckit::(LocalPathName|PathName)::rename$|^(std::)?rename$", args={1: r"this\.schemaPath_"})],
                [(r"^0==this\.readNext\(|^this\.readNext\(.*\)==0$|^0==local:\w+$", True), (r"^this\.readNext\(.*\)$|^0<this\.readNext|^local:len$", False)],
                "the schema is put in place only when the table of contents is empty", allow=lambda g: g.cls == f.cls)
        flows(ctx, "replaced", f, CallPred(r"^eckit::FileHandle::<ctor>$"), {0: r"onfig_\.schemaPath\(\)|local:tmp|unique|temporary"}, "the schema stored is the configured one")
    for f in p.fns.values():
        for i, inf in f.calls():
            if f.name == "writeInitRecord" or not f.blocks:
                continue
            if re.search(r"::(rename|unlink|FileHandle::<ctor>|ofstream.*<ctor>)$|^(unlink|rename|open|open64|truncate)$", inf["q"]):
                a = [sym.r(f, x) for x in f.args(i)] + ([sym.r(f, f.obj(i))] if f.obj(i) is not None else [])
                if any(re.search(r"this\.schemaPath_|\.schemaPath\(\)$", s) and "onfig" not in s for s in a):
                    ctx.ob("replaced", f"{f.q}: stored schema changed", False, f.loc(i), f"{inf['q']}({', '.join(a)[:120]})")
    for f in fns("fdb5::DaosCatalogueWriter::<ctor>"):
        if not any(last(inf["q"]) == "copyTo" for _, inf in f.calls()):
            continue
        guarded(ctx, "replaced", f, [CallPred(r"::copyTo$")], [(r"^0==.*\.size\(this\.db_cont_\)$", True), (r"has\(this\.db_cont_\)$", False), (r"^(?!0==).*\.size\(this\.db_cont_\)$", False)],
                "the schema is stored only for a database that is not registered yet")
    for f in fns("fdb5::FamCatalogueWriter::dumpSchema"):
        guarded(ctx, "replaced", f, [CallPred(r"::insertOrAssign$", args={0: r"schema"})], [(r"^end\(.*\)==.*find\(|find\(.*==end", True), (r"^atend\(", True)],
                "the schema is stored only when there is none", required=True)
    # the path is that of the directory
    homes = [(f, node) for f in p.fns.values() if f.kind == "ctor" and f.file.startswith("fdb5/toc/") for _, name, node, *_ in f.inits if last(name) == "schemaPath_" and not f.d.get("implicit")]
    ctx.need(homes, "initialisation of schemaPath_ not found")
    for f, node in homes:
        s = sym.r(f, node)
        ctx.ob("replaced", f"{f.q}({', '.join(last(a[2]) for a in f.params)}): the schema lies in the database's directory", bool(re.search(r'"schema"', s)) and "directory_" in s, f.loc(), s[:200])

    # 6. types are looked up in the schema the rule belongs to
    for q in ("fdb5::Schema::<ctor>", "fdb5::Schema::load"):
        for f in fns(q):
            if f.d.get("implicit") or not f.params or re.search(r"Schema", f.params[0][2]):
                continue
            must_pass(ctx, "types", f, [CallPred(r"TypesRegistry::updateParent$", args={0: r"this\.registry_"})], forall=r"rules_", what=f"every rule's types are those of this schema ({last(f.params[0][2])})")
    for f in fns("fdb5::Rule::updateParent"):
        par0 = f.params[0][0]
        must_pass(ctx, "types", f, [CallPred(r"TypesRegistry::updateParent$", args={0: rf"(param:{par0}|this\.parent_)\.registry"})],
                  sanction=[(rf"^(param:{par0}|this\.parent_)$", False), (rf"^null==param:{par0}$", True)], what="types are inherited from the parent rule")


def fresh(ctx, p, sym, f):
    """a schema that is kept by path is used again only for the same file"""
    for i, inf in f.calls():
        pass
    regs = [g for i, g in reached(p, f) if g.cls == "fdb5::SchemaRegistry" and g.name != "instance"]
    ctx.need(regs, "TocCatalogue::loadSchema does not use the registry")
    for g in {g.id: g for g in regs}.values():
        inside = below(p, g, lambda h: h.cls == g.cls)
        looks = [h.loc(i) for h in inside for i, inf in h.calls() if STAT.search(inf["q"])]
        drops = [h.loc(i) for h in inside for i, inf in h.calls()
                 if last(inf["q"]) in ("erase", "insert_or_assign", "extract", "clear", "operator=", "reset", "swap", "exchange") and any(re.search(r"schemas_|^iter|it(er)?\b.*second", sym.r(h, x)) for x in ([h.obj(i)] if h.obj(i) is not None else []) + h.args(i))]
        ok = bool(looks and drops)
        ctx.ob("fresh", f"{g.q}: a schema kept in memory is used only while its file is the same", ok, g.loc(),
               f"compared with the file at {looks[0]}, dropped at {drops[0]}" if ok else "a schema loaded earlier in the process is used for whatever file is now at the path")
        if ok:
            absent = [(r"^end\(this\.schemas_\)==", True), (r"empty\(this\.schemas_\)$", True), (r"^this\.schemas_\.(count|contains)\(", False), (r"^0==this\.schemas_\.count\(", True), (r"^atend\(", True)]
            must_pass(ctx, "fresh", g, [CallPred(STAT.pattern)], sanction=absent, what="the file is looked at whenever a schema is kept for its path", allow=lambda h: h.cls == g.cls)
            must_pass(ctx, "fresh", g, [CallPred(r"::(erase|insert_or_assign|extract|clear|swap|exchange|reset|operator=)$", obj=r"schemas_|^iter|second")],
                      sanction=absent + [(r"==(?!.*this\.schemas_)", True), (r"^(?!.*(==|<)).*\(param:\w+\)(\.has_value\(\))?$", False)],
                      what="a schema whose file differs is dropped", allow=lambda h: h.cls == g.cls)


def reached(p, f):
    for i, inf in f.calls():
        for g in p.targets(inf):
            yield i, g


def remote(ctx, p, sym, f):
    inside = below(p, f, lambda g: g.cls == f.cls or g.file == f.file)
    sends = [(g, i) for g in inside for i, inf in g.calls() if re.search(r"controlWrite\w*$", inf["q"]) and any(sym.r(g, a).endswith("Message::Schema") for a in g.args(i))]
    ctx.ob("stored-schema", f"{f.q}: the schema is asked from the server", bool(sends), f.loc(), f"{len(sends)} request(s)")
    for g, i in sends:
        keyed = [sym.r(g, a) for j, inf in g.calls() if re.search(r"operator<<$", inf["q"]) for a in ([g.obj(j)] if g.obj(j) is not None else []) + g.args(j)]
        ok = any(re.search(r"[kK]ey", k) for k in keyed) and len(g.args(i)) >= 3 and not any(sym.r(g, a) in ("null", "0", "nullptr") for a in g.args(i)[1:])
        ctx.ob("stored-schema", f"{g.q}: asks for the schema of its database", ok, g.loc(i), "the database's key is sent" if ok else "no key is sent: the server answers with its configured schema")
        if g.params and not g.cls:
            for h in inside:
                for j, inf in h.calls():
                    if any(t.id == g.id for t in p.targets(inf)):
                        a = [sym.r(h, x) for x in h.args(j)]
                        ctx.ob("stored-schema", f"{h.q}: asks for the schema of its own key", "this.dbKey_" in a, h.loc(j), str(a))
    for g in [g for g in p.byq.get(f.cls + "::rule", []) if g.blocks]:
        must_pass(ctx, "stored-schema", g, [CallPred(r"^fdb5::Schema::matchingRule$", obj=r"^this\.schema\(\)$|^this\.schema_$", args={0: r"^this\.dbKey_$"})],
                  sanction=[(r"^this\.rule_(\.has_value\(\))?$", True)], what="the rule is looked up in the schema of the database")
    must_pass(ctx, "stored-schema", f, [CallPred(r"controlWriteReadResponse$|fetchSchema$")], sanction=[(r"^this\.schema_$", True), (r"^null==this\.schema_$", False)],
              what="the schema is fetched unless it is there already")


def server(ctx, p, sym, f):
    for i, inf in f.calls():
        if inf["q"] == "fdb5::Config::schema" :
            must = guarded(ctx, "configured-schema", f, [CallPred(r"^fdb5::Config::schema$")], [(r"^empty\(param:|^0==param:\w+\.size\(\)|\.empty\(\)$", True), (r"^param:\w+\.size\(\)$", False)],
                           "the configured schema answers only requests that name no database", allow=lambda g: g.cls == f.cls)
            break
    must_pass(ctx, "configured-schema", f, [CallPred(r"^fdb5::Catalogue(Writer|Reader)?::schema$", obj=r"^this\.catalogue\(")], sanction=[(r"^empty\(param:|^0==param:\w+\.size\(\)", True), (r"^param:\w+\.size\(\)$", False)],
              what="a request that names a database gets that database's schema", allow=lambda g: g.cls == f.cls)


def uses_rule(p, sym, c):
    for f in p.fns.values():
        if f.cls in (c,) and any(sym.r(f, i) == "this.rule_" for i, x in enumerate(f.n) if x[0] == "mem"):
            return True
    return False


def expands(ctx, p, sym, f):
    v = next((a[0] for a in f.params if "Visitor" in a[2]), None)
    ctx.need(v, "RuleDatabase::expand has no visitor")
    inst = f"{f.q}({last(f.params[0][2])})"
    sites = [(g, i, sym.r(g, g.obj(i))) for g in below(p, f, lambda h: h.cls == f.cls or h.file == f.file and not h.cls) for i, inf in g.calls() if inf["q"] in ("fdb5::RuleIndex::expand", "fdb5::RuleIndex::findMatchingKey") and g.obj(i) is not None]
    sites = [(g, i, s) for g, i, s in sites if inf_expand(g, i)]
    ctx.ob("interpreted", f"{inst}: indexes are expanded", bool(sites), f.loc(), f"{len(sites)} site(s)")
    for g, i, s in sites:
        ok = re.search(r"\.databaseSchema\(\)\.matchingRule\(", s) is not None and "this.rules_" not in s
        if not ok:
            m = re.search(r"param:(\w+)", s)
            if g.id != f.id and m:
                for j, inf in f.calls():
                    if any(t.id == g.id for t in p.targets(inf)):
                        k = [x[0] for x in g.params].index(m.group(1))
                        a = f.args(j)
                        ok = k < len(a) and re.search(r"\.databaseSchema\(\)", sym.r(f, a[k])) is not None
        ctx.ob("interpreted", f"{inst}: index rules are those of the database's own schema", ok, g.loc(i), s[:200])
    ordered(ctx, "interpreted", f, [CallPred(r"Visitor::selectDatabase$")], [CallPred(r"Visitor::databaseSchema$")], f"{last(f.params[0][2])}: the schema is asked once the database is selected",
            allow=lambda g: g.cls == f.cls)
    # the same key selects the database and its rule
    sel = [sym.r(f, f.args(i)[0]) for i, inf in f.calls() if inf["q"].endswith("Visitor::selectDatabase")]
    rule = [sym.r(f, f.args(i)[0]) for i, inf in f.calls() if inf["q"] == "fdb5::Schema::matchingRule"]
    if sel and rule:
        ctx.ob("interpreted", f"{inst}: rule of the key that was selected", set(rule) <= set(sel), f.loc(), f"selected {sel[0][:90]}; rule of {rule[0][:90]}")


def inf_expand(g, i):
    return g.n[i][2]["q"] == "fdb5::RuleIndex::expand"
