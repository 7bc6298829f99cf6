"""The layouts that the compiler gives to the stored and transmitted records, the values of the enumerations that are stored or
transmitted, the version numbers, and the item sequences that every writer produces (per format version) are compared with those
of the released formats; path facts and provenance show that a reader checks the version of what it reads, interprets it under
that version, and that a writer stamps the version it writes."""
import json
import os
import re

from rules import p13, p15
from vt import facts
from vt.layout import layouts
from vt.lib import CallPred, below, deepflows, flows, last, must_pass, par, pathfacts, result_checked
from vt.prog import Sym

TECHNIQUE = "comparison of compiler record layouts, enumeration values, constants and extracted writer grammars with the released formats; path facts and provenance for version checks"
ASSUMPTIONS = ["the formats of the pinned commit are the released ones (rules/golden/formats.json)",
               "a record or enumeration that is stored or sent on the wire is one of those listed in the rule",
               "the encodings of eckit's own types (Stream, BTree, FixedString) are frozen by eckit"]
FLOORS = {"layout": 6, "value": 40, "constant": 6, "words": 60, "class-name": 20, "reader": 6, "writer": 5}

RECORDS = ["fdb5::TocRecord", "fdb5::TocRecord::Header", "fdb5::FieldRef", "fdb5::FieldRefReduced", "fdb5::FieldRefLocation", "fdb5::remote::MessageHeader"]
ENUMS = ["fdb5::remote::Message", "fdb5::ControlIdentifier", "fdb5::ControlAction", "fdb5::WipeElementType", "IndexBaseStreamKeys", "IndexAxisStreamKeys"]
GOLDEN = os.path.join(os.path.dirname(__file__), "golden", "formats.json")


class Sink:
    """collects what the rules about writers and readers extract"""

    def __init__(self, ctx):
        self.p, self.words = ctx.p, {}
        self.tier, self.extra, self.notes = ctx.tier, {}, []
        self.need = ctx.need

    def ob(self, *a):
        pass

    def count(self, r):
        pass


def globalvalue(p, q):
    for g in p.globals:
        if g["q"] == q and g["n"]:
            for x in g["n"]:
                if x[0] in ("int", "str"):
                    return x[2]
    return None


def returned(p, f):
    """integer constants that a function returns, alone or in a list"""
    out = []
    for i, x in enumerate(f.n):
        if x[0] == "int" and re.fullmatch(r"\d+", str(x[2])):
            out.append(int(x[2]))
    return sorted(set(out), reverse=True)


def current(ctx):
    p = ctx.p
    lay = layouts(["fdb5/toc/TocRecord.h", "fdb5/toc/FieldRef.h", "fdb5/remote/Messages.h"], RECORDS, "fdb5/toc/TocHandler.cc")
    out = {"layout": {r: [lay[r][0], [[o, n] for o, n in lay[r][1]]] for r in RECORDS if r in lay}, "enum": {}, "constant": {}, "words": {}, "class": []}
    for e in p.enums:
        q = e["q"]
        k = next((x for x in ENUMS if q == x or q.endswith("::" + x)), None)
        if k is None and any(n == "TOC_INIT" for n, _ in e["v"]):
            k = "TocRecord tag"
        if k:
            out["enum"].setdefault(k, {}).update({n: int(v) for n, v in e["v"]})
    M = "fdb5::remote::MessageHeader::"
    for c in ("currentVersion", "StartMarker", "EndMarker"):
        out["constant"][M + c] = globalvalue(p, M + c)
    for c in ("fdb5::TocSerialisationVersion", "fdb5::RemoteProtocolVersion"):
        for m in ("supported", "latest", "defaulted"):
            fs = p.byq.get(f"{c}::{m}", [])
            ctx.need(fs, f"{c}::{m} is gone")
            out["constant"][f"{c}::{m}"] = returned(p, fs[0])
    s = Sink(ctx)
    p13.run(s)
    p15.run(s)
    for (rule, inst), ws in s.words.items():
        k = re.sub(r"( [vs]ent by .*| with(out)? payload)", "", f"{rule}: {inst}")
        for w in ws:
            t = [[i.label for i in w], [i.role[1] if i.role and isinstance(i.role[1], str) else "" for i in w]]
            if t not in out["words"].setdefault(k, []):
                out["words"][k].append(t)
    for k in out["words"]:
        out["words"][k].sort()
    for g in p.globals:
        if g["t"].endswith("eckit::ClassSpec"):
            out["class"] += [[re.sub(r"::\w+$", "", g["q"]), x[2]] for x in g["n"] if x[0] == "str"]
    out["class"].sort()
    return out


def short(w):
    return " ".join(w) or "(nothing)"


def run(ctx):
    p = ctx.p
    sym = Sym(p)
    now = current(ctx)
    with open(GOLDEN) as f:
        was = json.load(f)

    # --- records
    for r, (size, fields) in was["layout"].items():
        ctx.need(r in now["layout"], f"the layout of {r} is not known")
        s2, f2 = now["layout"][r]
        why = None
        if [o for o, _ in fields] != [o for o, _ in f2] or size != s2:
            d = next((f"{b[1]} at {b[0]} instead of {a[1]} at {a[0]}" for a, b in zip(fields, f2) if a[0] != b[0]), "its fields differ")
            why = f"size {s2} (released {size}); {d}"
        elif sorted(n for _, n in fields) == sorted(n for _, n in f2) and fields != f2:
            a, b = next((a, b) for a, b in zip(fields, f2) if a != b)
            why = f"{b[1]} is at offset {b[0]} where {a[1]} was"
        ctx.ob("layout", r, why is None, "src/fdb5", why or f"{len(f2)} fields, {s2} bytes")
    # --- enumerations
    for e, vals in was["enum"].items():
        ctx.need(e in now["enum"], f"enumeration {e} is not known")
        cur = now["enum"][e]
        free = {n for n in cur if n not in vals}
        for n, v in vals.items():
            ctx.ob("value", f"{e} {n}", cur.get(n, v if v in cur.values() and any(cur[x] == v for x in free) else None) == v, "src/fdb5",
                   f"is {cur.get(n)}, released as {v}")
        for n in sorted(free):
            taken = [x for x, v in vals.items() if v == cur[n] and x in cur]
            ctx.ob("value", f"{e} {n}", not taken, "src/fdb5", f"new, value {cur[n]}" + (f", which is {taken[0]}" if taken else ""))
    # --- constants
    for c, v in was["constant"].items():
        ctx.ob("constant", c, now["constant"].get(c) == v, "src/fdb5", f"is {now['constant'].get(c)}, released as {v}")
    # --- item sequences
    n = 0
    for k, ws in was["words"].items():
        cur = now["words"].get(k)
        if cur is None:
            continue
        n += 1
        a, b = {tuple(w[0]) for w in ws}, {tuple(w[0]) for w in cur}
        why = None
        if a != b:
            x = sorted(b - a or a - b, key=len)[0]
            why = (f"writes {short(x)}, which the released format has not: " if b - a else f"no longer writes {short(x)}; now: ") + " | ".join(short(y) for y in sorted(a if b - a else b, key=len)[:3])
        else:
            for w in ws:
                o = [x for x in cur if x[0] == w[0]]
                if w[1] and not any(x[1] == w[1] for x in o) and any(sorted(x[1]) == sorted(w[1]) for x in o):
                    why = f"items are written in the order {short([y for y in o[0][1] if y])}, released as {short([y for y in w[1] if y])}"
        ctx.ob("words", k, why is None, "src/fdb5", why or f"{len(b)} sequences as released")
    ctx.need(n >= 0.8 * len(was["words"]), f"only {n} of {len(was['words'])} formats were found again")
    # --- names of streamed classes
    cur = dict(map(tuple, now["class"]))
    for c, nm in was["class"]:
        ctx.ob("class-name", c, cur.get(c, nm if nm in cur.values() else None) == nm, "src/fdb5", f"is streamed as {cur.get(c)}, released as {nm}")

    # --- versions are checked
    SV, RV = "fdb5::TocSerialisationVersion", "fdb5::RemoteProtocolVersion"
    for c in (SV, RV):
        for f in p.byq.get(c + "::check", []):
            v = par(f, 0)
            T = {"eq": rf"(==.*{v}|{v}.*==)(?!.*end)", "end": r"std::(find|count|any_of|binary_search)\(", "t": f"^{par(f, 1)}$"}

            def ver(o, d):
                if o and not (d.get("eq") or d.get("end") is not None and d.get("eq") is None):
                    return "a version that is not supported is accepted"
                if not o and d.get("t"):
                    return "a version that is not supported does not raise an error though the caller asks for it"
            pathfacts(ctx, "reader", f, T, "only supported versions are accepted", check=ver)
            ctx.ob("reader", f"{f.q}: compares with what is supported", any(last(inf["q"]) == "supported" for g in below(p, f, lambda g: g.cls == f.cls) for i, inf in g.calls()), f.loc(), "")
    H = "fdb5::TocHandler::"
    VER = r"(\w|\.|->|\(|\)|:)*header_\.serialisationVersion_"
    for f in p.byq.get(H + "readNextInternal", []):
        rec = par(f, 0)
        pathfacts(ctx, "reader", f, {}, "the version of a record is checked before the record is handed out", events={"chk": [CallPred(SV + r"::check$", args={0: rec + r"\.header_\.serialisationVersion_$", 1: "^true$"})]},
                  check=lambda o, d: "a record is handed out unchecked" if o and not d.get("chk") else None)
    # records are interpreted under their own version
    k = 0
    for f in sorted(p.fns.values(), key=lambda f: f.id):
        if not f.file.startswith("fdb5/toc/"):
            continue
        for i, inf in f.calls():
            if inf["q"] == "fdb5::TocIndex::<ctor>" and "eckit::Stream" in inf["id"]:
                k += 1
                t = sym.r(f, f.args(i)[1])
                ctx.ob("reader", f"index decoded in {p.family(f)[-1].q} #{k}", re.search(VER + "$|^param:version$", t) or re.fullmatch(r"param:\w+", t), f.loc(i), f"version {t}")
            if last(inf["q"]) == "encode" and re.match(r"fdb5::(Index|IndexBase|TocIndex)::", inf["q"]) and f.file.endswith("TocHandler.cc"):
                t = sym.r(f, f.args(i)[1])
                ctx.ob("writer", f"index encoded in {p.family(f)[-1].q}", re.search(VER + "$", t), f.loc(i), f"version {t}")
            if inf["q"] == "fdb5::TocRecord::<ctor>" and len(f.args(i)) == 2:
                t = sym.r(f, f.args(i)[0])
                ctx.ob("writer", f"record made in {p.family(f)[-1].q} with tag {sym.r(f, f.args(i)[1])}", re.search(r"erialisationVersion(_|\(\))\.(used\(\)|used_)$", t), f.loc(i), f"version {t}")
            if "make_unique<fdb5::TocRecord" in inf["id"] and f.args(i):
                t = sym.r(f, f.args(i)[0])
                ctx.ob("writer", f"record made in {p.family(f)[-1].q} #{f.args(i)[1:] and sym.r(f, f.args(i)[1])}", re.search(r"erialisationVersion(_|\(\))\.(used\(\)|used_)$", t), f.loc(i), f"version {t}")
    # the version that is used
    for f in p.byq.get(SV + "::<ctor>", []):
        if f.params and "Config" in f.params[0][2]:
            chk = [i for i, inf in f.calls() if inf["q"] == SV + "::check"]
            oks = [(sym.r(f, f.args(i)[1]) == "true" or result_checked(p, f, i)[0]) and sym.r(f, f.args(i)[0]) in ("this.used_", "this.used()") for i in chk]
            ctx.ob("writer", f"{f.q}: the version used is supported", any(oks), f.loc(), "checked" if any(oks) else "is not checked")
            must_pass(ctx, "writer", f, [CallPred(SV + "::check$")], what="the version used is checked on every path")
    for f in p.byq.get("fdb5::TocRecord::Header::<ctor>", []):
        if len(f.params) == 2:
            w = [sym.r(f, f.ch(i)[1]) for i, x in enumerate(f.n) if x[0] == "assign" and sym.r(f, f.ch(i)[0]).endswith("serialisationVersion_")]
            w += [sym.r(f, it[2]) for it in f.inits if it[0] == "field" and last(it[1]) == "serialisationVersion_" and it[2] is not None and it[2] >= 0]
            ctx.ob("writer", f"{f.q}: stamps the version", w == [par(f, 0)], f.loc(), str(w))
            tg = [sym.r(f, it[2]) for it in f.inits if it[0] == "field" and last(it[1]) == "tag_" and it[2] is not None and it[2] >= 0]
            tg += [sym.r(f, f.ch(i)[1]) for i, x in enumerate(f.n) if x[0] == "assign" and sym.r(f, f.ch(i)[0]).endswith("tag_")]
            ctx.ob("writer", f"{f.q}: stamps the tag", tg and set(tg) == {par(f, 1)}, f.loc(), str(tg))
    # the protocol
    R = "fdb5::remote::"
    for f in p.byq.get(R + "ServerConnection::initialiseConnections", []):
        n = 0
        for g in below(p, f, lambda g: g.cls == f.cls or not g.cls):
            for i, inf in g.calls():
                if inf["q"] == RV + "::check":
                    n += 1
        ctx.ob("reader", f"{f.q}: checks the protocol version", n > 0, f.loc(), f"{n} checks")
        pathfacts(ctx, "reader", f, {"ok": r"RemoteProtocolVersion\(?\)?.*check\(|remoteProtocolVersion\(\)\.check\("}, "a client of another protocol version is refused",
                  at=[(CallPred(R + r"RemoteConfiguration::common$"), lambda d, fr, i: None if d.get("ok") else "the connection is set up though the protocol version of the client is not supported")],
                  allow=lambda g: g.cls == f.cls, need_hits=True, boolean=False)
    for f in [g for g in p.byq.get(R + "Connection::read", []) if g.blocks]:
        T = {"start": r"StartMarker", "ver": r"currentVersion|(^|[^\w.])12==.*version|version==12", "end": r"EndMarker"}
        pathfacts(ctx, "reader", f, T, "marker and version of a message are checked before it is interpreted", boolean=False,
                  events={"hdr": [CallPred(r"Connection::readUnsafe$")]},
                  at=[(CallPred(r"eckit::Buffer::<ctor>$", args={0: "payloadSize"}), lambda d, fr, i: None if d.get("start") and d.get("ver") else "the message is interpreted before its marker and version are checked")],
                  allow=lambda g: g.cls == f.cls, need_hits=True)
    for f in [g for g in p.byq.get(R + "MessageHeader::<ctor>", []) if len(g.params) == 5]:
        got = {}
        for it in f.inits:
            if it[0] == "field" and it[2] is not None and it[2] >= 0:
                got[last(it[1])] = sym.r(f, it[2])
        for i, x in enumerate(f.n):
            if x[0] == "assign":
                got[last(sym.r(f, f.ch(i)[0]).replace(".", "::"))] = sym.r(f, f.ch(i)[1])
        want = {"marker": "StartMarker$|SFDB", "version": r"currentVersion$|^12$", "message": f"^{par(f, 0)}$", "clientID_": par(f, 2) + "<<1.*" + par(f, 1) + "|" + par(f, 1) + ".*" + par(f, 2) + "<<1|2\\*",
                "requestID": f"^{par(f, 3)}$", "payloadSize": f"^{par(f, 4)}$"}
        for m, rx in want.items():
            ctx.ob("writer", f"{f.q}: {m}", re.search(rx, got.get(m, "")), f.loc(), f"is {got.get(m)}")
