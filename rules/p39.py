"""P39 client-side flow control accounts for every read it admits"""
import re

from vt.engine import Engine, Rule
from vt.lib import CallPred, expand, followed, last, must_pass
from vt.prog import Sym, atoms

TECHNIQUE = "typestate analysis of the accounting of the read limiter along normal and exceptional paths; dataflow of identifiers and sizes; who-may-call"
FLOORS = {"accounting": 3, "handle": 3, "owner": 1, "request": 4}
ASSUMPTIONS = ["the server answers every read request that it acknowledged", "a handle is destroyed once it is no longer used"]

IDLE = {"grew": 0, "kept": 0, "active": 0, "debt": 0, "left": 0, "freed": 0, "taken": 0, "room": 0, "more": 0, "failed": 0, "told": 0, "pushed": 0, "looked": 0, "own": 0, "gone": 0, "ret": 0, "absent": 0}


def st(s, **kw):
    d = dict(s)
    d.update(kw)
    return tuple(sorted(d.items()))


class Accounting(Rule):
    exceptions = True
    nonempty = False

    def __init__(self, p, cls, m, sends, tells):
        super().__init__(p)
        self.cls, self.m, self.sends, self.tells = cls, m, sends, tells
        self.bad = {}
        self.hits = set()

    def relevant(self, f):
        return f.cls == self.cls or f.kind == "lambda" and any(g.cls == self.cls for g in self.p.family(f))

    def may_throw(self, inf):
        return bool(self.sends(inf))

    def excstate(self, fr, s, i):
        inf = fr.fn.n[i][2]
        if isinstance(inf, dict) and self.sends(inf):
            return (st(s, failed=1, told=0),)
        return (s,)

    def flag(self, fr, i, msg):
        self.bad.setdefault((fr.fn.loc(i), msg), 1)

    def t(self, fr, i):
        return expand(self.sym, fr.fn, self.sym.r(fr.fn, i, fr.env))

    def assign(self, fr, s, i):
        x = fr.fn.n[i]
        lhs = self.sym.r(fr.fn, x[3][0], fr.env)
        d = dict(s)
        if lhs == "this." + self.m["used"]:
            rhs = self.t(fr, x[3][1]) if len(x[3]) > 1 else "1"
            op = x[2]
            mm = re.match(r"^\(this\." + self.m["used"] + r"([+-])(.*)\)$", rhs)
            if op == "=" and mm:
                op, rhs = mm.group(1) + "=", mm.group(2)
            if op == "+=":
                if self.m["size"] not in rhs and not re.search(r"\.length_", rhs):
                    self.flag(fr, i, f"the memory in use grows by {rhs}, not by the size of the request")
                self.hits.add("grow")
                return [st(s, grew=d["grew"] + 1 if d["grew"] < 2 else 2)]
            if op == "-=":
                if f"this.{self.m['sizes']}" not in rhs and self.m["size"] not in rhs:
                    self.flag(fr, i, f"the memory in use shrinks by {rhs}, not by what was recorded for the request")
                if re.search(self.m["sizes"] + r"(\[|\.(find|at)\()", rhs) and d["own"]:
                    self.flag(fr, i, "the size is looked up after the record of it was removed")
                self.hits.add("shrink")
                if d["grew"]:
                    return [st(s, grew=d["grew"] - 1, more=1, own=0)]
                return [st(s, debt=min(d["debt"] + 1, 2), freed=1, more=1, own=0)]
            self.flag(fr, i, f"the memory in use is set to {rhs}")
            return None
        mm = re.match(r"^this\." + self.m["sizes"] + r"(\[|\.(emplace|try_emplace|insert))", lhs)
        if mm:
            return [st(s, kept=1)]
        return None

    def call(self, fr, s, i, inf):
        f, d = fr.fn, dict(s)
        if self.sends(inf):
            self.hits.add("send")
            for k, msg in (("grew", "the memory in use"), ("kept", "the size recorded for the request"), ("active", "the set of active requests")):
                if not d[k]:
                    self.flag(fr, i, f"a request is sent before it is entered in {msg}")
            if d["grew"] > 1:
                self.flag(fr, i, "a request is counted twice")
            if not d["room"]:
                self.flag(fr, i, "a request is sent without room for it")
            return None
        if self.tells(inf):
            return [st(s, told=1)]
        o = f.obj(i)
        if o is None or o < 0:
            return None
        ot = self.sym.r(f, o, fr.env)
        k = last(inf["q"])
        sizes, act, queue = ("this." + self.m[x] for x in ("sizes", "active", "queue"))
        if ot == sizes:
            if k in ("emplace", "insert", "try_emplace", "insert_or_assign"):
                return [st(s, kept=1)]
            if k in ("erase", "extract", "clear"):
                if k == "clear":
                    self.flag(fr, i, "the sizes of all requests are forgotten")
                if d["kept"]:
                    return [st(s, kept=0, own=int(d["grew"] > 0))]
                return [st(s, debt=max(d["debt"] - 1, -2), own=int(d["debt"] <= 0))]
        elif ot == act and k in ("erase", "extract") or ot.startswith(act) and k in ("erase", "extract", "clear"):
            if d["active"]:
                return [st(s, active=0, gone=1)]
            return [st(s, left=1)]
        elif ot.startswith(act) and k in ("insert", "emplace"):
            return [st(s, active=1, absent=0)]
        elif ot == queue:
            if k in ("pop_front", "pop_back"):
                if k == "pop_back":
                    self.flag(fr, i, "requests are not sent in their order")
                return [st(s, taken=1)]
            if k in ("erase",):
                return [st(s, looked=1)]
            if k in ("begin", "end", "find"):
                return [st(s, looked=1)]
            if k in ("push_back", "emplace_back"):
                return [st(s, pushed=1, more=1)]
            if k in ("push_front", "emplace_front"):
                return [st(s, taken=0)]
            if k == "clear":
                self.flag(fr, i, "all waiting requests are dropped")
        return None

    def after(self, fr, s, i, inf):
        if not self.sends(inf):
            return None
        return [st(s, grew=0, kept=0, active=0, room=0, more=1, gone=0, taken="sent" if dict(s)["taken"] else "owed")]

    def element(self, fr, s, i):
        x = fr.fn.n[i]
        if x[0] == "return" and x[3] and fr.fn.d.get("ret") == "bool":
            v = self.sym.r(fr.fn, x[3][0], fr.env)
            return [st(s, ret=(fr.fn.name, v == "true") if v in ("true", "false") else 0)]
        return None

    def branch(self, fr, s, form, cond):
        out = s
        u, lim = "this." + self.m["used"], "this." + self.m["limit"]
        act, sizes = "this." + self.m["active"], "this." + self.m["sizes"]
        # what has just been entered is there
        d = dict(s)

        def never(x):
            if x[0] == "or":
                return all(never(y) for y in x[1])
            if x[0] == "and":
                return any(never(y) for y in x[1])
            if x[0] != "atom":
                return False
            t = expand(self.sym, fr.fn, x[1])
            if not x[2]:
                return bool(d["absent"] and re.match(r"^end\(" + act + r"\)==", t))
            return bool(d["active"] and re.match(r"^(end\(" + act + r"\)==|0==" + act + r".*\.(count|size)\(|empty\(" + act + ")", t)
                        or (d["active"] or d["gone"]) and re.match(r"^0==" + act + r".*\.erase\(", t)
                        or d["gone"] and re.match(r"^end\(" + act + r"\)==", t)
                        or d["kept"] and re.match(r"^(end\(" + sizes + r"\)==|0==" + sizes + r".*\.count\()", t))
        if never(form):
            return []
        for t, pol in self.implied(form):
            mm = re.match(r"^this\.(\w+)\(", t)
            if mm and d["ret"] and d["ret"][0] == mm.group(1) and d["ret"][1] != pol:
                return []
            t = expand(self.sym, fr.fn, t)
            if re.match(r"^end\(" + act + r"\)==", t):
                out = st(out, absent=int(pol))
            if u in t and lim in t and self.m["size"] in t:
                fits = None
                if re.match(r"^" + re.escape(lim) + r"<\(", t):
                    fits = not pol
                elif re.match(r"^\(" + re.escape(u) + r"\+.*\)<" + re.escape(lim) + "$", t):
                    fits = True if pol else None     # equality
                elif re.match(r"^\(" + re.escape(lim) + "-" + re.escape(u) + r"\)<", t):
                    fits = not pol
                elif re.search(r"<=", t):
                    fits = pol if t.index("<=") > t.index(u) else None
                if fits:
                    out = st(out, room=1)
                elif fits is False:
                    out = st(out, more=0)
            if t == f"empty(this.{self.m['queue']})" or re.match(r"^0==this\." + self.m["queue"] + r"\.size\(\)$", t):
                if pol:
                    out = st(out, more=0)
            if re.match(r"^atend\(this\." + self.m["queue"], t) or "end(this." + self.m["queue"] in t:
                out = st(out, looked=1)
        return [out] if out != s else None

    @staticmethod
    def implied(form):
        from vt.prog import implied as imp
        r = []
        for a in imp(form):
            r.append((a[1], a[2]) if a[0] == "atom" else a)
        return r


def run(ctx):
    p = ctx.p
    sym = Sym(p)
    L = "fdb5::remote::ReadLimiter"
    ctx.need(L in p.classes, "no read limiter")
    m = {}
    info = None
    for fld in p.classes[L]["fields"]:
        n, t = fld[0], fld[1]
        if re.search(r"(deque|list|queue|vector)<", t):
            m["queue"] = n
            info = re.search(r"<([\w:]+)", t).group(1)
        elif re.search(r"map<std::pair<", t):
            m["sizes"] = n
        elif re.search(r"map<.*std::(unordered_)?set<", t):
            m["active"] = n
        elif t.startswith("const ") and "long" in t:
            m["limit"] = n
        elif "long" in t:
            m["used"] = n
    ctx.need({"queue", "sizes", "active", "limit", "used"} <= set(m), f"members of the read limiter are not recognised: {m}")
    ctx.need(info in p.classes, "the record of a waiting request is not known")

    methods = [f for f in p.fns.values() if f.cls == L and f.blocks and f.kind == "method"]
    add = [f for f in methods if any(x[0] == "call" and last(x[2]["q"]) in ("push_back", "emplace_back") and f.obj(i) is not None and sym.r(f, f.obj(i)) == "this." + m["queue"] for i, x in enumerate(f.n))]
    ctx.need(add, "no request is ever put in the queue")

    # the size of a request: the member compared with the limit
    sizes = {x[0] for x in p.classes[info]["fields"] if x[1] == "unsigned long"}
    used = set()
    for f in methods:
        for i, x in enumerate(f.n):
            if x[0] == "assign" and sym.r(f, x[3][0]) == "this." + m["used"] and len(x[3]) > 1:
                used |= set(re.findall(r"\.(\w+)", sym.r(f, x[3][1]))) & sizes
    ctx.need(len(used) == 1, f"the size of a request is not recognised: {used}")
    m["size"] = used.pop()

    def isread(f, i):
        return any(re.search(r"Message::Read$", sym.r(f, a)) for a in f.args(i))
    CTRL = re.compile(r"^fdb5::remote::Client\w*::(controlWrite\w*|dataWrite|dataWrite\w*)$")
    sites = [(f, i) for f in p.fns.values() for i, inf in f.calls() if CTRL.match(inf["q"]) and isread(f, i)]
    for f, i in sites:
        owner = [g for g in p.family(f) if g.cls == L] if f.kind == "lambda" else [f]
        ctx.ob("request", f"{f.q}: reads are sent by the limiter only", any(g.cls == L for g in owner), f.loc(i))
    ctx.need(any(f.cls == L for f, i in sites), "the limiter does not send anything")
    sid = {inf["id"] for f, i in sites for k, inf in [(i, f.n[i][2])]}
    sends = lambda inf: inf["id"] in sid
    stops = p.can_reach([f.id for f in p.fns.values() if any(re.search(r"\bQueue::(interrupt|close)$", inf["q"]) for _, inf in f.calls())])
    tells = lambda inf: not CTRL.match(inf["q"]) and any(g.cls != L and g.id in stops for g in p.targets(inf))

    # the operations
    pub = [f for f in methods if f.d.get("acc") in (None, "public") and not f.d.get("static")]
    def reaches(f, pred, seen=None):
        seen = seen if seen is not None else set()
        if f.id in seen:
            return False
        seen.add(f.id)
        for i, inf in f.calls():
            if pred(f, i, inf):
                return True
            for g in p.targets(inf):
                if g.cls == L and reaches(g, pred, seen):
                    return True
        return any(pred(f, i, None) for i, x in enumerate(f.n) if x[0] == "assign")
    shrinks = lambda f, i, inf: inf is None and sym.r(f, f.n[i][3][0]) == "this." + m["used"]
    q = lambda names: lambda f, i, inf: inf is not None and last(inf["q"]) in names and f.obj(i) is not None and sym.r(f, f.obj(i)) == "this." + m["queue"]
    fin = [f for f in methods if len(f.params) == 2 and all("int" in a[2] for a in f.params) and f.d.get("ret") == "void"]
    evi = [f for f in methods if len(f.params) == 1 and ("int" in f.params[0][2] or "long" in f.params[0][2]) and f.d.get("ret") == "void"]
    outside = {f.id for f in fin + evi + add if any(p.fns[c].cls != L for c in p.callers.get(f.id, ()) if c in p.fns)}
    fin = [f for f in fin if f.id in outside]
    evi = [f for f in evi if f.id in outside]
    dec = {f.id for f in methods if reaches(f, shrinks)}
    fin, evi = [f for f in fin if f.id in dec], [f for f in evi if f.id in dec]
    ctx.need(fin and evi, "the ways to release a request are not recognised")

    for f in add + fin + evi:
        r = Accounting(p, L, m, sends, tells)
        e = Engine(p, r)
        n, x = e.run(f, tuple(sorted(IDLE.items())), None)
        ctx.count(r)
        bad = sorted(r.bad)
        for s in n:
            d = dict(s)
            if d["more"]:
                bad.append((f.loc(), "requests that wait are not sent although there is room for them"))
            if f not in add and f in fin and not d["freed"] and not d["looked"] and d["debt"] == 0:
                bad.append((f.loc(), "a request that was not sent yet stays in the queue for ever"))
            if f in evi and not d["looked"]:
                bad.append((f.loc(), "requests that were not sent yet stay in the queue"))
            if f in add and not d["pushed"]:
                bad.append((f.loc(), "a request is not put in the queue"))
        for s in list(n) + list(x):
            d = dict(s)
            if d["debt"]:
                bad.append((f.loc(), "the memory in use and the recorded sizes are not kept in step"))
            if d["freed"] and not d["left"]:
                bad.append((f.loc(), "a request that was released stays active"))
            if d["taken"] == "owed":
                bad.append((f.loc(), "a request that was sent stays in the queue"))
            if d["failed"]:
                if d["grew"] or d["kept"] or d["active"]:
                    bad.append((f.loc(), "a request that could not be sent is not released"))
                if not d["taken"]:
                    bad.append((f.loc(), "a request that could not be sent stays in the queue"))
                if not d["told"]:
                    bad.append((f.loc(), "nobody is told that a request could not be sent"))
        for s in x:
            if dict(s)["failed"] and f not in add:
                bad.append((f.loc(), "a failure to send a request reaches whoever released another one"))
        ctx.ob("accounting", f"{f.q}: what is admitted is accounted for, and what waits is sent when there is room", not bad and "send" in r.hits, bad[0][0] if bad else f.loc(),
               bad[0][1] if bad else f"{len(n)} exit state(s); {', '.join(sorted(r.hits))}")
        if f in fin + evi:
            ctx.ob("accounting", f"{f.q}: releases what was admitted", "shrink" in r.hits, f.loc())
    # what is queued
    order = [x[0] for x in p.classes[info]["fields"]]
    for f in add:
        for i, inf in f.calls():
            if last(inf["q"]) in ("push_back", "emplace_back") and f.obj(i) is not None and sym.r(f, f.obj(i)) == "this." + m["queue"]:
                a = [sym.r(f, y) for y in f.args(i)]
                t = re.sub(r"^[\w:]*\{|\}$", "", a[0]) if len(a) == 1 else None
                vals = split(t) if t is not None else a
                want = expand(sym, f, vals[order.index(m["size"])]) if len(vals) == len(order) else "?"
                loc = [b[0] for b in f.params if "FieldLocation" in b[2]]
                ctx.ob("request", f"{f.q}: the size of a request is the length of the field", bool(loc) and want in (f"param:{loc[0]}.length_", f"param:{loc[0]}.length()"), f.loc(i), want)
                ids = [b[0] for b in f.params]
                got = [v for v in vals if re.match(r"^param:\w+$", v)]
                ctx.ob("request", f"{f.q}: a request keeps its client and its identifier", len([v for v in got if v[6:] in ids]) >= 2 and len(set(got)) == len(got), f.loc(i), ", ".join(vals)[:150])
        if_ = [(i, x) for i, x in enumerate(f.n) if x[0] == "throw"]
        from vt.lib import ordered
        big = [(re.escape("this." + m["limit"]) + "<.*length", False), (".*length.*<" + re.escape("this." + m["limit"]), True)]
        PUSH = CallPred(r"::(push_back|emplace_back)$", obj=re.escape("this." + m["queue"]))
        ordered(ctx, "request", f, [], [PUSH], "a read that can never fit is refused", sanction=big, allow=lambda g: g.cls == L)

    # handles
    fid = {f.id for f in fin}
    classes = sorted({f.cls for f in p.fns.values() for i, inf in f.calls() if inf["id"] in fid and f.cls and f.cls != L} - {None})
    ctx.need(classes, "nothing reports that a read has finished")
    FIN = CallPred("^" + re.escape(fin[0].q) + "$")
    for c in classes:
        flags = [x[0] for x in p.classes[c]["fields"] if x[1] == "bool"]
        fl = "|".join(flags) or "?"
        dt = [f for f in p.fns.values() if f.cls == c and f.kind == "dtor" and f.blocks and not f.d.get("implicit")]
        if not dt:
            ctx.ob("handle", f"{c}: releases its read when it is destroyed", False, p.classes[c].get("file", ""), "no destructor")
        for f in dt:
            must_pass(ctx, "handle", f, [FIN], sanction=[(rf"^this\.({fl})$", True)], what="releases its read unless that has been done")
        # the mark
        for f in sorted(p.fns.values(), key=lambda g: g.id):
            if f.cls != c or not f.blocks:
                continue
            if f.kind == "ctor":
                v = {last(it[1]): sym.r(f, it[2]) for it in f.inits if it[0] == "field" and it[2] is not None and it[2] >= 0}
                on = [k for k in flags if v.get(k) not in ("false", None)]
                ctx.ob("handle", f"{f.id}: the read is not marked as finished from the start", not on, f.loc(), str(on))
                continue
            if f.kind == "dtor":
                continue
            r = Mark(p, c, flags, fid)
            n, x = Engine(p, r).run(f, "none", None)
            if not r.hits:
                continue
            b = {s for s in n | x if s in ("marked", "finished")}
            r.bad |= {("marked", f.loc())} if "marked" in b else set()
            ctx.count(r)
            ctx.ob("handle", f"{f.id}: a read is marked as finished exactly when it is released", not b and not r.bad, f.loc(),
                   "marked without being released" if "marked" in b else "released without being marked, and so released again" if b else sorted(r.bad)[0][0] if r.bad else f"{len(r.hits)} site(s)")
        rd = [f for f in p.fns.values() if f.cls == c and f.name == "read" and f.blocks]
        for f in rd:
            r = Complete(p, c, fid)
            n, x = Engine(p, r).run(f, "none", None)
            ctx.count(r)
            ctx.ob("handle", f"{f.id}: a read whose data are complete is released", "complete" not in n | x and bool(r.hits), f.loc(), f"{len(r.hits)} branch(es)")
        # ids
        mem = None
        for f in p.fns.values():
            for i, inf in f.calls():
                if f.cls == c and inf["id"] in fid:
                    a = [sym.r(f, y) for y in f.args(i)]
                    mem = mem or a
                    ctx.ob("handle", f"{f.id}: releases its own read", a == mem and len(set(a)) == 2 and all(y.startswith("this.") for y in a), f.loc(i), ", ".join(a))
        ctor = [f for f in p.fns.values() if f.cls == c and f.kind == "ctor" and f.params and not f.d.get("implicit")]
        for g in sorted(p.fns.values(), key=lambda h: h.id):
            for i, inf in g.calls():
                if g.n[i][0] == "new" and inf["q"].rsplit("::<ctor>", 1)[0] == c:
                    k = next((h for h in ctor if h.id == inf["id"]), None)
                    if k is None:
                        continue
                    keep = {last(it[1]): sym.r(k, it[2]) for it in k.inits if it[0] == "field" and it[2] is not None and it[2] >= 0}
                    args = {"param:" + a[0]: sym.r(g, y) for a, y in zip(k.params, g.args(i))}
                    got = [args.get(keep.get(y[5:], ""), "?") for y in (mem or [])]
                    ads = [(j, [sym.r(g, y) for y in g.args(j)]) for j, jn in g.calls() if jn["id"] in {h.id for h in add}]
                    ok = bool(ads) and all(a[1] in got and a[0] == "this" for _, a in ads) and len(got) == 2 and any(re.match(r"^this\.(id_|id\(\))$", y) for y in got) and got[0] != got[1]
                    ctx.ob("request", f"{g.id}: the handle has the identifiers under which the read was admitted", ok, g.loc(i), f"{got} admitted as {[a for _, a in ads]}"[:200])
                    # order of the parameters: client then request
                    if fin and mem and ok:
                        names = [a[0].lower() for a in fin[0].params]
                        ctx.ob("request", f"{g.id}: client and request are not confused", re.match(r"^this\.(id_|id\(\))$", got[0]) is not None, g.loc(i), f"{names} = {got}")
    # every admitted read gets a handle
    for g in sorted(p.fns.values(), key=lambda h: h.id):
        if g.cls != L and any(inf["id"] in {h.id for h in add} for _, inf in g.calls()):
            followed(ctx, "request", g, [CallPred("^" + re.escape(add[0].q) + "$")], [CallPred(r"(" + "|".join(re.escape(c) for c in classes) + r")::<ctor>$")], "every admitted read gets a handle")

    # clients that go away
    eid = {f.id for f in evi}
    who = sorted({f.cls for f in p.fns.values() if any(inf["id"] in {h.id for h in add} for _, inf in f.calls()) and f.cls != L})
    for c in who:
        dt = [f for f in p.fns.values() if f.cls == c and f.kind == "dtor" and f.blocks]
        ctx.need(dt, f"{c} has no destructor")
        for f in dt:
            must_pass(ctx, "owner", f, [CallPred("^" + re.escape(evi[0].q) + "$")], sanction=[(r"isInitialised|instance_", False), (r"^(null==.*instance_|.*instance_==null)$", True)], what="releases and withdraws its reads")
            for i, inf in f.calls():
                if inf["id"] in eid:
                    a = sym.r(f, f.args(i)[0])
                    ctx.ob("owner", f"{f.q}: withdraws its own reads", a in ("this.id_", "this.id()"), f.loc(i), a)
    # client and request of what is evicted
    for f in evi:
        par = "param:" + f.params[0][0]
        r = Evict(p, L, m, par)
        n, x = Engine(p, r).run(f, "start", None)
        ctx.count(r)
        ctx.ob("owner", f"{f.q}: only requests of this client leave the queue", not r.bad and r.hits > 0, sorted(r.bad)[0] if r.bad else f.loc(), f"{r.hits} removal(s)")


def split(t):
    out, d, cur = [], 0, ""
    for ch in t:
        if ch in "({[<":
            d += 1
        elif ch in ")}]>":
            d -= 1
        if ch == "," and d == 0:
            out.append(cur)
            cur = ""
        else:
            cur += ch
    return out + [cur]


class Mark(Rule):
    """none -> marked -> none when released; none -> finished -> none when marked"""
    nonempty = False

    def __init__(self, p, c, flags, fid):
        super().__init__(p)
        self.c, self.flags, self.fid = c, flags, fid
        self.hits, self.bad = set(), set()

    def relevant(self, f):
        return f.cls == self.c or f.kind == "lambda" and any(g.cls == self.c for g in self.p.family(f))

    def assign(self, fr, s, i):
        x = fr.fn.n[i]
        if self.sym.r(fr.fn, x[3][0], fr.env) in {"this." + k for k in self.flags} and len(x[3]) > 1:
            v = self.sym.r(fr.fn, x[3][1], fr.env)
            self.hits.add(i)
            if v == "true":
                return ["done" if s == "finished" else "marked" if s == "none" else s]
            if v == "false":
                self.bad.add(("a finished read is marked as unfinished", fr.fn.loc(i)))
        return None

    def call(self, fr, s, i, inf):
        if inf["id"] in self.fid:
            self.hits.add(i)
            if s in ("done", "finished"):
                self.bad.add(("a read is released twice", fr.fn.loc(i)))
            return ["done" if s == "marked" else "finished"]
        return None


class Complete(Rule):
    nonempty = False

    def __init__(self, p, c, fid):
        super().__init__(p)
        self.c, self.fid = c, fid
        self.hits = set()

    def relevant(self, f):
        return f.cls == self.c

    def branch(self, fr, s, form, cond):
        for t, pol in Accounting.implied(form):
            if pol and "Message::Complete" in t and "==" in t:
                self.hits.add(cond)
                return ["complete"]
        return None

    def case(self, fr, s, sw, label):
        from vt.lib import case_enums
        en = case_enums(fr, label)
        if en and any(x.endswith("Message::Complete") for x in en):
            self.hits.add(label)
            return ["complete"]
        return None

    def call(self, fr, s, i, inf):
        if inf["id"] in self.fid:
            return ["none"]
        return None


class Evict(Rule):
    nonempty = False

    def __init__(self, p, L, m, par):
        super().__init__(p)
        self.L, self.m, self.par = L, m, par
        self.hits, self.bad = 0, set()

    def relevant(self, f):
        return f.cls == self.L and f.name != "tryNextRequest"

    def branch(self, fr, s, form, cond):
        for t, pol in Accounting.implied(form):
            t = expand(self.sym, fr.fn, t)
            if self.par in t and "client" in t and "==" in t:
                return ["mine" if pol else "start"]
        return None

    def call(self, fr, s, i, inf):
        o = fr.fn.obj(i)
        if o is not None and self.sym.r(fr.fn, o, fr.env) == "this." + self.m["queue"] and last(inf["q"]) in ("erase", "pop_front", "clear"):
            a = " ".join(self.sym.r(fr.fn, y, fr.env) for y in fr.fn.args(i))
            self.hits += 1
            if s != "mine" and "remove_if" not in a:
                self.bad.add(fr.fn.loc(i))
        if inf["q"] in ("std::erase_if",):
            self.hits += 1
        return None
