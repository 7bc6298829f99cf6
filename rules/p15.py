"""The client's send sites, the server's dispatch and the client's dispatch are extracted from their control-flow graphs; each request
sent has a case on the server it goes to, each message the server sends has a case at the client, the kind of reply produced is the
kind waited for, unknown messages end in an error, and the item sequences of every payload and reply are compared between writer
and reader."""
import re

from rules import p13
from rules.p13 import labels, show
from vt.lib import last
from vt.prog import Env
from vt.wire import Item, Wire

TECHNIQUE = "protocol extraction: send sites, dispatch cases and reply kinds from the control-flow graph; grammar comparison of payloads and replies"
ASSUMPTIONS = ["eckit and metkit serialise their own types symmetrically",
               "ClientConnectionRouter connects RemoteStore to a store server and RemoteCatalogue, RemoteFDB to a catalogue server"]
FLOORS = {"handled": 15, "payload": 10, "reply": 6, "refused": 3, "result": 4}

MSG = "fdb5::remote::Message"
HND = "fdb5::remote::Handled"
R = "fdb5::remote::"
STORE, CAT = R + "StoreHandler", R + "CatalogueHandler"
PREFIX = {"Read"}  # the key after the location is not used by the server


class Cases(Wire):
    """sequences of calls and of values returned along the paths of a dispatch function"""
    EXTRA = ("return", "assign", "var")

    def __init__(self, p, base, param):
        self.__dict__.update(base.__dict__)
        self.param = param
        self.open = set()

    def items(self, f, i, S, env, side):
        x = f.n[i]
        if x[0] in ("return", "assign", "var"):
            c = x[3][-1] if x[3] else None
            if c is None:
                return None
            t = self.sym.r(f, c, env)
            m = re.fullmatch(re.escape(HND) + r"::(\w+)|(true|false)", t)
            if not m and x[0] == "return" and re.search(r"\(", t):
                return [(Item("=?", f, i),)]  # what a function answers
            return [(Item("=" + (m.group(1) or m.group(2)), f, i),)] if m else None
        if x[0] != "call":
            return None
        q = x[2]["q"]
        if q.startswith("std::") or q.startswith("eckit::"):
            return None
        for g in self.p.targets(x[2]):
            if g.blocks and g.id != f.id and g.id not in self.open and any(self.sym.r(f, a, env) == self.param for a in f.args(i)) \
                    and not any(pr[2] == "std::ostream &" for pr in g.params):
                self.open.add(g.id)
                try:
                    return self.inlined(f, i, g, f.args(i), S, env, side)
                finally:
                    self.open.discard(g.id)
        return [(Item("!" + x[2]["id"], f, i),)]


def name(i):
    """the name under which an item is known where it is written or read"""
    f = i.fn
    if i.node is not None and i.node >= 0 and f.n[i.node][0] == "call" and f.args(i.node):
        k = f.args(i.node)[-1]
        while f.n[k][0] == "cast" and f.n[k][3]:
            k = f.n[k][3][0]
        if f.n[k][0] in ("ref", "mem"):
            return f.n[k][2][0].strip("_").lower()
    t = i.role[1] if i.role and i.role[1] else i.val if isinstance(i.val, str) else ""
    m = re.search(r"(\w+?)_*$", t)
    if m:
        return m.group(1).lower()
    for d, v in i.fn.vars.items():  # constructed from the stream
        if i.node is not None and i.node in set(i.fn.walk(v)):
            return i.fn.n[v][2]["n"].strip("_").lower()
    return ""


def compare(ctx, p, rule, inst, enc, dec, where, prefix=False):
    """items as sequences; two items of one type must not be exchanged"""
    one = {"RemoteConfiguration": "Value", "eckit::LocalConfiguration": "Value", "eckit::Value": "Value", "eckit::Configuration": "Value"}
    clear = lambda ws: {tuple(Item(one.get(i.label, i.label), i.fn, i.node, i.val, None, "") for i in x) for x in ws}
    p13.compare(ctx, p, rule, inst, clear(enc), clear(dec), where, prefix=prefix)
    for a in enc:
        for b in dec:
            la, lb = ([one.get(i.label, i.label) for i in x] for x in (a, b))
            if la[:len(lb)] != lb:
                continue
            n, m = [name(i) for i in a], [name(i) for i in b]
            for j in range(len(b)):
                for k in range(j + 1, len(b)):
                    if n[j] and n[k] and n[j] != n[k] and a[j].label == a[k].label:
                        ctx.ob("order", f"{inst}: {n[j]}, {n[k]}", not (n[j] == m[k] != m[j] or n[k] == m[j] != m[k]), where,
                               f"written {n[j]} then {n[k]}, read {m[j]} then {m[k]}")


def dispatch(w, f):
    """{message or None: set of sequences} of a function that dispatches on its message parameter"""
    mp = [x for x in f.params if re.sub("^const ", "", x[2]) == MSG]
    if not mp:
        return None
    c = Cases(w.p, w, f"param:{mp[0][0]}")
    out = {}
    names = "|".join(n for e in w.p.enums if e["q"] == MSG for n, _ in e["v"])
    for wd in c.words(f, "-", Env(), "-", notes=w.enum_notes(f, rf"\b(?:{names})\b")):
        tag, cur = None, []
        for it in wd:
            if it.label.startswith("#case "):
                tag = it.label[6:].rsplit("::", 1)[-1]
                cur = []
            else:
                cur.append(it)
        out.setdefault(tag, set()).add(tuple(cur))
    # labels that share one statement
    for i, x in enumerate(f.n):
        if x[0] == "case":
            ns = [n.rsplit("::", 1)[-1] for n in w.case_names(f, i)]
            k = i
            while True:
                nx = [c for c in f.n[k][3] if c >= 0 and f.n[c][0] == "case"]
                if not nx:
                    break
                k = nx[0]
                ns += [n.rsplit("::", 1)[-1] for n in w.case_names(f, k)]
            have = [n for n in ns if n in out]
            for n in ns:
                if have and n not in out:
                    out[n] = out[have[0]]
    return out


def closure(p, f, cls):
    """f, the lambdas in it and the functions of the class it calls"""
    seen, todo = {}, [f]
    while todo:
        g = todo.pop()
        if g.id in seen:
            continue
        seen[g.id] = g
        todo += p.lambdas_of(g)
        for i, inf in g.calls():
            for h in p.targets(inf):
                if h.cls == cls or (not h.cls and h.file == f.file):
                    todo.append(h)
    return list(seen.values())


def buffers(w, f, node, depth=0):
    """words written to (or read from) the buffer an expression denotes: a set per side, through helpers that fill or parse it"""
    out = {"enc": set(), "dec": set()}
    if depth > 4:
        return out
    decls = set()
    ok = True
    for j in f.walk(node):
        x = f.n[j]
        if x[0] == "ref" and x[2][2] in f.vars:
            decls.add(x[2][2])
        if x[0] == "ref" and any(pr[1] == x[2][2] for pr in f.params):
            decls.add(x[2][2])
    for d in decls:
        merge(out, buffer_decl(w, f, d, depth))
    return out


def merge(a, b):
    for k in a:
        a[k] |= b[k]


def reads_decl(f, node, d):
    return any(f.n[j][0] == "ref" and f.n[j][2][2] == d for j in f.walk(node))


def buffer_decl(w, f, d, depth=0):
    p = w.p
    out = {"enc": set(), "dec": set()}
    if depth > 4:
        return out
    # streams on the buffer
    for e, i in f.vars.items():
        x = f.n[i]
        if re.match(r"^(const )?eckit::(\w*Stream)$", x[2]["t"]) and x[3] and reads_decl(f, x[3][0], d):
            S = "local:" + p.lname(f, e, x[2]["n"])
            for side in ("enc", "dec"):
                ws = {w.fold(y) for y in w.words(f, S, Env(), side)}
                ws = {tuple(i for i in y if opside(i) in (side, None)) for y in ws}
                out[side] |= {y for y in ws if y}
    # the buffer is the result of a function that fills it
    if d in f.vars and f.n[f.vars[d]][3]:
        for j in f.walk(f.n[f.vars[d]][3][0]):
            if f.n[j][0] == "call":
                for g in p.targets(f.n[j][2]):
                    if g.blocks and g.file.startswith(("fdb5/remote", "fdb5/api")) and not re.search(r"Client\w*::|Connection::", g.q):
                        for r in g.walk():
                            if g.n[r][0] == "return" and g.ch(r):
                                merge(out, buffers(w, g, g.ch(r)[0], depth + 1))
    # the buffer is handed to a helper
    for i, inf in f.calls():
        if re.search(r"::(controlWrite\w*|dataWrite|write|read\w*|emplace\w*|queue|push)$", inf["q"]):
            continue
        for k, a in enumerate(f.args(i)):
            if not reads_decl(f, a, d):
                continue
            for g in p.targets(inf):
                if g.blocks and k < len(g.params) and g.file.startswith(("fdb5/remote", "fdb5/api")) \
                        and re.search(r"Buffer|void|char", g.params[k][2]):
                    merge(out, buffer_decl(w, g, g.params[k][1], depth + 1))
    return out


def opside(it):
    x = it.fn.n[it.node] if it.node is not None and it.node >= 0 else None
    if not x or x[0] not in ("call", "new"):
        return None
    nm = last(x[2]["q"])
    if nm == "operator<<" or nm == "encode":
        return "enc"
    if nm == "operator>>" or nm == "<ctor>" or nm in ("decode", "reanimate") or "make_" in nm:
        return "dec"
    return None


def message_of(p, w, f, node):
    t = w.sym.r(f, node)
    m = re.fullmatch(re.escape(MSG) + r"::(\w+)", t)
    if m:
        return [m.group(1)]
    if re.fullmatch(r"\d+", t):
        for e in p.enums:
            if e["q"] == MSG:
                return [n for n, v in e["v"] if str(v) == t][:1]
    # a choice between two messages
    return [m for m in re.findall(re.escape(MSG) + r"::(\w+)", t)]


def server_of(w, f, i):
    o = f.obj(i)
    c = ""
    if o is not None and f.n[w.root(f, o)][0] not in ("this",):
        c = w.static_type(f, o) or ""
    for x in (c, f.cls or "", (w.p.family(f)[-1].cls or "")):
        x = x.rsplit("::", 1)[-1].strip(" *&")
        if "Store" in x:
            return STORE
        if "Catalogue" in x or "RemoteFDB" in x:
            return CAT
    return None


def declref(f, node):
    for j in f.walk(node):
        if f.n[j][0] == "ref" and (f.n[j][2][2] in f.vars or any(pr[1] == f.n[j][2][2] for pr in f.params)):
            return f.n[j][2][2]
    return None


def run(ctx):
    p = ctx.p
    w = Wire(p)
    sends = []
    for f in p.fns.values():
        if not re.match(r"fdb5/(remote/client|api)/", f.file) or re.match(r"fdb5::remote::(Client|ClientConnection)::", f.q):
            continue
        for i, inf in f.calls():
            nm = last(inf["q"])
            if nm in ("controlWriteCheckResponse", "controlWriteReadResponse", "dataWrite"):
                ms = message_of(p, w, f, f.args(i)[0])
                ctx.need(ms, f"no message known for the request sent at {f.loc(i)}")
                sv = server_of(w, f, i)
                ctx.need(sv, f"no server known for the request sent at {f.loc(i)}")
                for m in ms:
                    sends.append((f, i, nm, m, sv))
    ctx.need(len(sends) >= 20, f"only {len(sends)} send sites found")

    # --- dispatch of the servers
    table = {}
    for cls in (STORE, CAT):
        for nm in ("handleControl", "handleData"):
            for pay in (False, True):
                fs = [f for c in (cls, R + "ServerConnection") for f in p.byq.get(f"{c}::{nm}", [])
                      if any("Buffer" in x[2] for x in f.params) == pay and f.blocks]
                ctx.need(fs, f"{cls}::{nm} has no definition {'with' if pay else 'without'} payload")
                table[cls, nm, pay] = (fs[0], dispatch(w, fs[0]))
    done = set()
    for (cls, nm, pay), (f, d) in sorted(table.items(), key=lambda x: str(x[0])):
        if f.id in done:
            continue
        done.add(f.id)
        bad = [x for x in d.get(None, ()) if any(i.label.startswith("=") and i.label != "=No" for i in x)
               and not any("::error(" in i.label for i in x)]
        ctx.ob("refused", f"{f.q} {'with' if pay else 'without'} payload", not bad and d, f.loc(),
               f"an unknown message ends with {bad[0][-1].label[1:]} and without an error" if bad else "unknown messages end in an error")

    # --- requests
    seen = {}
    for f, i, nm, m, sv in sends:
        args = f.args(i)
        pi = 2 if nm == "controlWriteReadResponse" else 3
        if nm == "dataWrite":
            pay, hn = True, "handleData"
        else:
            pay, hn = len(args) > pi and w.sym.r(f, args[pi]) not in ("null", "nullptr") and f.n[w.root(f, args[pi])][0] != "null", "handleControl"
            if len(args) > pi and "defarg" in str(f.n[args[pi]][0]):
                pay = False
        g, d = table[sv, hn, pay]
        inst = f"{m} {'with' if pay else 'without'} payload to {last(sv)} sent by {f.q}"
        case = d.get(m)
        ctx.ob("handled", inst, bool(case), f.loc(i), f"{g.q} {'has' if case else 'has no'} case for it")
        if not case:
            continue
        # kind of reply
        res = set()
        for x in case:
            r = [y.label[1:] for y in x if y.label.startswith("=")]
            if r and not any("::error(" in y.label for y in x):
                res.add(r[-1])
        meths = {}
        for x in case:
            for y in x:
                if y.label.startswith("!") and y.label[1:] in p.fns and (p.fns[y.label[1:]].cls in (sv, R + "ServerConnection")) \
                        and not y.label[1:].endswith("error") and "::error(" not in y.label:
                    meths[y.label[1:]] = p.fns[y.label[1:]]
        wr = []
        for h in meths.values():
            for k in closure(p, h, sv):
                for j, inf in k.calls():
                    if re.search(r"Connection::write$", inf["q"]) and len(k.args(j)) >= 4:
                        wr.append((k, j, (message_of(p, w, k, k.args(j)[0]) or ["?"])[0], w.sym.r(k, k.args(j)[1]) == "true", len(k.args(j)) >= 6))
        ctrl = [x for x in wr if x[3] and x[2] != "Error"]
        if nm == "dataWrite":
            pass
        elif nm == "controlWriteReadResponse":
            # each path of the method answers
            ok = res <= {"Replied"} and res and ctrl
            ctx.ob("reply-kind", inst, ok, f.loc(i), f"waits for an answer; server returns {sorted(res)}, answers at {[k.loc(j) for k, j, *_ in ctrl]}")
        else:
            own = [x for x in ctrl if x[2] != "Store"]
            ok = res and "Replied" not in res and "No" not in res and not own
            ctx.ob("reply-kind", inst, ok, f.loc(i), f"waits for an acknowledgement; server returns {sorted(res)}" + (f", but also answers at {own[0][0].loc(own[0][1])}" if own else ""))
        # payload
        if nm != "dataWrite" and pay:
            enc = buffers(w, f, args[pi])["enc"]
            if not enc and f.n[w.root(f, args[pi])][0] != "ref":
                enc = carried(w, f, args[pi])
            ctx.need(enc, f"the payload sent at {f.loc(i)} is not known")
            dec = set()
            for h in meths.values():
                for pr in h.params:
                    if "Buffer" in pr[2]:
                        dec |= buffer_decl(w, h, pr[1])["dec"]
            inst2 = f"{m} to {last(sv)} sent by {f.q}"
            where = next(iter(meths.values())).loc() if meths else g.loc()
            compare(ctx, p, "payload", inst2, enc, dec or {()}, where, prefix=m in PREFIX)
            length(ctx, w, f, i, args, pi, inst2)
        # reply
        if nm == "controlWriteReadResponse" and ctrl:
            enc = set()
            for k, j, mm, _, hp in ctrl:
                if hp:
                    enc |= buffers(w, k, k.args(j)[4])["enc"]
                    length(ctx, w, k, j, k.args(j), 4, f"reply to {m} at {last(sv)} in {k.name}")
            if m == "Schema":
                pass
            dec = set()
            d_ = result_decl(f, i)
            if d_ is not None:
                dec = buffer_decl(w, f, d_)["dec"]
            else:
                dec = buffers_of_call(w, f, i)
            compare(ctx, p, "reply", f"{m} to {last(sv)} sent by {f.q}", enc or {()}, dec or {()}, f.loc(i))
        # results that follow
        res_ = [x for x in wr if not x[3] and x[2] != "Error"]
        if nm == "controlWriteCheckResponse" and f.name == "forwardApiCall" and res_:
            enc = set()
            for k, j, mm, _, hp in res_:
                if hp:
                    enc |= buffers(w, k, k.args(j)[4])["enc"]
            dec = set()
            for l in p.lambdas_of(f):
                for S in w.streams(l):
                    dec |= {y for y in (w.fold(y) for y in w.words(l, S, Env(), "dec")) if y}
            compare(ctx, p, "result", f"{m} to {last(sv)}", enc or {()}, dec or {()}, f.loc(i))
            kinds = {x[2] for x in res_}
            ctx.ob("result", f"{m} to {last(sv)} ends", "Complete" in kinds, f.loc(i), f"the server sends {sorted(kinds)}")
        # what the server sends by itself must be understood
        cl = client_class(f)
        for k, j, mm, c_, hp in wr:
            if mm in ("Received", "Startup") or (c_ and nm == "controlWriteReadResponse"):
                continue
            seen.setdefault((cl, mm, hp), (k, j))
    for sv, cl in ((STORE, "fdb5::remote::RemoteStore"),):
        for f in p.byq.get(sv + "::archiveBlob", []) + p.byq.get(sv + "::writeToParent", []):
            for k in closure(p, f, sv):
                for j, inf in k.calls():
                    if re.search(r"Connection::write$", inf["q"]) and len(k.args(j)) >= 4:
                        mm = (message_of(p, w, k, k.args(j)[0]) or ["?"])[0]
                        seen.setdefault((cl, mm, len(k.args(j)) >= 6), (k, j))
    for (cl, mm, hp), (k, j) in sorted(seen.items(), key=lambda x: str(x[0][:3])):
        hs = [h for c in [cl] + [x for x in p.superclasses(cl)] for h in p.byq.get(c + "::handle", [])
              if any("Buffer" in x[2] for x in h.params) == hp and h.blocks]
        if not hs:
            continue
        d = dispatch(w, hs[0])
        ok = any(x and any(y.label in ("=true", "=?") for y in x) for x in d.get(mm, ()))
        ctx.ob("understood", f"{mm} {'with' if hp else 'without'} payload by {cl}", ok or mm == "Error", hs[0].loc(),
               f"sent at {k.loc(j)}; " + ("accepted" if ok else "not accepted") + f" by {hs[0].q}")
        none = [x for x in d.get(None, ()) if any(y.label == "=true" for y in x)]
        ctx.ob("refused", f"{hs[0].q} {'with' if hp else 'without'} payload", not none, hs[0].loc(), "unknown messages are not accepted")
    ctx.need(not w.truncated, f"too many sequences in {sorted(w.truncated)}")
    archive(ctx, p, w)
    startup(ctx, p, w)
    ids(ctx, p, w)
    wiped(ctx, p, w)


def client_class(f):
    return f.cls or "fdb5::remote::RemoteCatalogue"


def carried(w, f, node):
    """words of the buffers that are moved into the structure the payload comes from"""
    out = set()
    for g in w.p.fns.values():
        if g.file == f.file and g.blocks:
            for d in g.vars:
                if re.search(r"eckit::Buffer$", g.n[g.vars[d]][2]["t"]):
                    out |= buffer_decl(w, g, d)["enc"]
    return out


def result_decl(f, i):
    a = i
    for j in f.ancestors(i):
        if f.n[j][0] == "var":
            for d, k in f.vars.items():
                if k == j:
                    return d
    return None


def buffers_of_call(w, f, i):
    """streams built directly on the answer"""
    out = set()
    for e, v in f.vars.items():
        x = f.n[v]
        if re.match(r"^(const )?eckit::(\w*Stream)$", x[2]["t"]) and i in set(f.walk(v)):
            S = "local:" + w.p.lname(f, e, x[2]["n"])
            out |= {y for y in (w.fold(y) for y in w.words(f, S, Env(), "dec")) if y}
    return out


def length(ctx, w, f, i, args, pi, inst):
    """the length announced is the position of the stream that filled the buffer"""
    if len(args) <= pi + 1:
        return
    m = re.fullmatch(r"(local:\w+)\.position\(\)", w.sym.r(f, args[pi + 1]))
    if not m:
        return
    d = declref(f, args[pi])
    for e, v in f.vars.items():
        x = f.n[v]
        if "local:" + w.p.lname(f, e, x[2]["n"]) == m.group(1) and x[3] and d is not None:
            ctx.ob("length", inst, reads_decl(f, x[3][0], d), f.loc(i), f"length is that of {m.group(1)}")


def payload_lists(w, f):
    """element words of what a data message carries: the stream part"""
    out = set()
    for S in w.streams(f):
        ws = {w.fold(y) for y in w.words(f, S, Env(), "enc")}
        out |= {tuple(i for i in y if opside(i) in ("enc", None)) for y in ws}
    return {x for x in out if x}


def archive(ctx, p, w):
    for cq, sq in (("fdb5::remote::RemoteStore", STORE), ("fdb5::remote::RemoteCatalogue", CAT)):
        enc, where = set(), ""
        for f in p.fns.values():
            if f.cls == cq and any(last(inf["q"]) == "dataWrite" for _, inf in f.calls()):
                for k in closure(p, f, cq):
                    enc |= payload_lists(w, k)
        ctx.need(enc, f"the data message of {cq} is not known")
        for f in p.find(sq + "::archiveBlob"):
            dec = set()
            for S in w.streams(f):
                ws = {w.fold(y) for y in w.words(f, S, Env(), "dec")}
                dec |= {tuple(i for i in y if opside(i) in ("dec", None)) for y in ws}
            dec = {x for x in dec if x}
            compare(ctx, p, "payload", f"Blob to {last(sq)}", enc, dec, f.loc())
    # the location that comes back
    enc = set()
    for f in p.find(STORE + "::archiveBlob"):
        for k in closure(p, f, STORE):
            for j, inf in k.calls():
                if re.search(r"Connection::write$", inf["q"]) and "Store" in message_of(p, w, k, k.args(j)[0]) and len(k.args(j)) >= 6:
                    enc |= buffers(w, k, k.args(j)[4])["enc"]
                    length(ctx, w, k, j, k.args(j), 4, f"location of a field archived in {k.name}")
    dec, where = set(), ""
    for h in p.find("fdb5::remote::RemoteStore::handle"):
        for x in h.params:
            if "Buffer" in x[2]:
                for k in closure(p, h, h.cls) + locations(p, h):
                    for S in w.streams(k):
                        dec |= {y for y in (w.fold(y) for y in w.words(k, S, Env(), "dec")) if y}
                where = h.loc()
    compare(ctx, p, "reply", "Store to RemoteStore", enc or {()}, dec or {()}, where)


def locations(p, h):
    """functions of the same file that the handler hands the message to"""
    out = []
    for i, inf in h.calls():
        for g in p.targets(inf):
            if g.file == h.file and g.blocks and g.cls != h.cls:
                out.append(g)
    return out


def startup(ctx, p, w):
    def words(q, side, only=None):
        out = []
        for f in p.find(q):
            for S in sorted(w.streams(f)):
                ws = {w.fold(y) for y in w.words(f, S, Env(), side)}
                ws = {tuple(i for i in y if opside(i) in (side, None)) for y in ws}
                ws = {y for y in ws if y}
                if ws:
                    out.append((f, ws))
        return out
    C = R + "ClientConnection::"
    cs = words(C + "writeControlStartupMessage", "enc")
    ds = words(C + "writeDataStartupMessage", "enc")
    sr = words(C + "verifyServerStartupResponse", "dec")
    rd = words(R + "ServerConnection::initialiseConnections", "dec")
    wr = words(R + "ServerConnection::initialiseConnections", "enc")
    ctx.need(cs and ds and sr and rd and wr, "startup messages not found")
    full = lambda ws: {x for x in ws if len(x) == max(map(len, ws))}

    def best(cands, ws):
        n = {len(x) for x in ws}
        c = [x for x in cands if labels(next(iter(full(x[1])))) == labels(next(iter(full(ws))))]
        return c or cands
    for nm, e, ds_ in (("control startup", cs, rd), ("data startup", ds, rd)):
        b = best(ds_, e[0][1])
        compare(ctx, p, "startup", nm, e[0][1], full(b[0][1]), b[0][0].loc())
    e = best(wr, sr[0][1])
    compare(ctx, p, "startup", "answer to startup", full(e[0][1]), sr[0][1], sr[0][0].loc())


def idpair(f):
    u = [x for x in f.params if re.match(r"^(const )?(unsigned int|uint32_t)$", x[2])]
    return (u[0], u[1]) if len(u) >= 2 else None


def ids(ctx, p, w):
    """client and request identifiers keep their places from the request to the answer"""
    n = 0
    for f in p.fns.values():
        if not f.file.startswith("fdb5/remote/server/"):
            continue
        root = next((g for g in p.family(f) if idpair(g)), None)
        if root is None:
            continue
        a, b = (f"param:{x[0]}" for x in idpair(root))
        for i, inf in f.calls():
            if not inf["q"].startswith(R):
                continue
            ts = [w.sym.r(f, k) for k in f.args(i)]
            if a not in ts and b not in ts:
                continue
            if re.search(r"Connection::(write|error)$", inf["q"]):
                k = 2 if inf["q"].endswith("write") else 1
                got = ts[k:k + 2]
            else:
                g = next((g for g in p.targets(inf) if idpair(g)), None)
                if g is None:
                    continue
                got = [t for t, pr in zip(ts, g.params) if pr[0] in (idpair(g)[0][0], idpair(g)[1][0])]
            if len(got) == 2 and (got[0] in (a, b) or got[1] in (a, b)):
                n += 1
                ok = (got[0] == a or got[0] != b) and (got[1] == b or got[1] != a)
                ctx.ob("identifiers", f"{f.q.split('@')[0]} calls {last(inf['q'])} {ts[0] if 'Message' in ts[0] else ''}", ok, f.loc(i), f"client {got[0]}, request {got[1]}")
    ctx.need(n >= 20, f"only {n} uses of identifiers found")


def wiped(ctx, p, w):
    """what the store reports about a wipe goes where it came from"""
    pair = {"unknownURIs": "Unrecognised", "dataAuxiliaryURIs": "Auxiliary", "unrecognisedURIs": "Unrecognised", "missingURIs": "Missing"}
    enc = []
    for f in p.find(STORE + "::finaliseWipeState"):
        for k in closure(p, f, STORE):
            for S in w.streams(k):
                for x in w.words(k, S, Env(), "enc"):
                    ns = [re.search(r"(\w+?)_*(?:\(\))?$", i.val) for i in x if isinstance(i.val, str) and "set<" in i.label]
                    if len(ns) == 3 and all(ns):
                        enc.append(([n.group(1) for n in ns], k))
    for f in p.find("fdb5::remote::RemoteStore::finaliseWipeState"):
        for k in closure(p, f, f.cls):
            for S in w.streams(k):
                for x in w.words(k, S, Env(), "dec"):
                    sets = [i for i in x if "set<" in i.label]
                    if len(sets) != 3:
                        continue
                    use = []
                    for i in sets:
                        t = w.sym.r(k, k.args(i.node)[-1]) if k.n[i.node][0] == "call" else ""
                        m = {last(inf["q"]) for j, inf in k.calls() for a in k.args(j) if t and t in w.sym.r(k, a) and "WipeState" in inf["q"]}
                        use.append(sorted(m))
                    for ns, g in enc:
                        for n, u in zip(ns, use):
                            want = pair.get(n)
                            if want and u:
                                ctx.ob("wipe-report", f"{n}", any(want in y for y in u), k.loc(sets[0].node), f"{n} of the store ends in {u} of the client")
