"""Interprocedural typestate engine: explores the CFG of a root function and, inline, of everything relevant it calls,
as a set of (program point, abstract state) pairs; a Rule defines the states and reacts to events."""
from . import facts
from .prog import NORETURN, Env, Sym, atoms, implied

EXIT_Q = {"exit", "_exit", "abort", "std::exit", "std::abort", "std::terminate"}


class Frame:
    __slots__ = ("fn", "env", "up", "node", "depth")

    def __init__(self, fn, env, up=None, node=None):
        self.fn = fn
        self.env = env
        self.up = up
        self.node = node
        self.depth = up.depth + 1 if up else 0

    def chain(self):
        out = []
        f = self
        while f:
            if f.up is not None and f.node is not None:
                out.append(f"{f.fn.q} (called at {f.up.fn.loc(f.node)})")
            else:
                out.append(f.fn.q)
            f = f.up
        return " <- ".join(out)


class Rule:
    exceptions = False  # follow exceptional edges out of calls
    nonempty = True     # loops over containers run at least once
    max_depth = 40

    def __init__(self, prog):
        self.p = prog
        self.sym = Sym(prog)
        self.reports = {}
        self.stats = {"functions": set(), "events": 0, "sites": set()}
        self._rel = None

    # what to inline ------------------------------------------------------------------------------------------------
    def interesting(self, fn):
        """does the body of fn itself contain an event the rule reacts to?"""
        return True

    def relevant(self, fn):
        if self._rel is None:
            base = [f.id for f in self.p.fns.values() if self.interesting(f)]
            self._rel = self.p.can_reach(base)
        return fn.id in self._rel

    def allow(self, fn):
        """restrict virtual dispatch"""
        return True

    def absorbing(self, st):
        """no event changes this state any more"""
        return False

    # events: return None for 'nothing', or an iterable of successor states -----------------------------------------
    def call(self, fr, st, i, inf):
        return None

    def after(self, fr, st, i, inf):
        """after an inlined or opaque call"""
        return None

    def assign(self, fr, st, i):
        return None

    def element(self, fr, st, i):
        """any other element (ref, mem, var, new, delete, return...)"""
        return None

    def branch(self, fr, st, form, cond):
        return None

    def case(self, fr, st, sw, label):
        return None

    def dtor(self, fr, st, el):
        return None

    def loopexit(self, fr, st, header, how, cond):
        return None

    def may_throw(self, inf):
        return not inf.get("nx") and not inf["q"].startswith(("std::move", "std::forward", "std::get"))

    def excstate(self, fr, st, i):
        """state with which an exception leaves an opaque call"""
        return (st,)

    def report(self, fr, node, msg, extra=""):
        key = (fr.fn.id, msg)
        if key not in self.reports:
            self.reports[key] = {"where": fr.fn.loc(node), "fn": fr.fn.q, "msg": msg, "via": fr.chain(), "extra": extra}


class Engine:
    def __init__(self, prog, rule):
        self.p = prog
        self.rule = rule
        self.memo = {}
        self.active = {}
        self.sym = rule.sym
        self.witness = {}
        self._label = {}
        self.rounds = 0
        self.envs = {}
        self.allel = type(rule).element is not Rule.element
        self._els = {}

    # ---------------------------------------------------------------------------------------------------------------
    def run(self, fn, st, env=None):
        fr = Frame(fn, dict(env or {}))
        for _ in range(8):
            self.changed = False
            self.memo.clear()
            n, e = self._run(fr, st, keep=True)
            if not self.changed:
                break
        return n, e

    def _key(self, fr, st):
        e = fr.env
        if not isinstance(e, Env) or e.key is None:
            items = tuple(sorted(e.items()))
            ne = self.envs.get(items)
            if ne is None:
                ne = self.envs[items] = Env(e)
                ne.key = items
            e = fr.env = ne
        items = e.key
        if any(v.startswith("lambda:") for v in e.values()):
            f = fr.up
            extra = tuple(sorted(f.env.items())) if f else ()
            return (fr.fn.id, items, st, extra)
        return (fr.fn.id, items, st)

    def _run(self, fr, st, keep=False):
        g = fr.up
        while g is not None:
            if g.fn is fr.fn:
                fr = Frame(fr.fn, g.env, fr.up, fr.node)  # recursion: same context as the outer activation
                break
            g = g.up
        key = self._key(fr, st)
        if key in self.memo:
            return self.memo[key]
        if key in self.active:
            return self.active[key]
        if fr.depth > self.rule.max_depth:
            return (frozenset((st,)), frozenset())
        prev = getattr(self, "_last", None)
        if prev is None:
            prev = self._last = {}
        self.active[key] = prev.get(key, (frozenset(), frozenset()))
        res = self._explore(fr, st, keep)
        used = self.active.pop(key)
        if prev.get(key) != res:
            prev[key] = res
            if used != res:
                self.changed = True
        self.memo[key] = res
        return res

    def _explore(self, fr, st0, keep):
        fn, rule = fr.fn, self.rule
        rule.stats["functions"].add(fn.id)
        bl = fn.blocks
        if not bl:
            return (frozenset((st0,)), frozenset())
        entry, exit_ = fn.cfg["entry"], fn.cfg["exit"]
        inloop = {}
        headers = {}
        for h, body in fn.loops:
            headers[h] = body
        norm, exc = {}, set()
        seen = {}
        work = [(entry, st0, False)]
        seen[(entry, st0, False)] = None
        catchq = []

        def push(b, s, back, frm):
            k = (b, s, back)
            if k not in seen:
                seen[k] = frm
                work.append(k)

        while work:
            k = work.pop()
            b, s, back = k
            if b == exit_:
                norm.setdefault(s, k)
                continue
            el, su, te, la, nr = bl[b]
            states = [s]
            dead = False
            for e in self._elements(fn, b, el):
                nxt = []
                for x in states:
                    outn, oute = self._element(fr, x, e)
                    for y in outn:
                        if y not in nxt:
                            nxt.append(y)
                    for y in oute:
                        self._unwind(fr, e if isinstance(e, int) else None, y, push, exc, k)
                states = nxt
                if not states:
                    dead = True
                    break
            if dead:
                continue
            if nr and not any(isinstance(e, int) and fn.n[e][0] == "throw" for e in el):
                # ends in a call that does not return (already reported as exceptional if it throws)
                continue
            for x in states:
                self._succ(fr, b, x, back, su, te, headers, push, k)
        # returns end in edges to exit; collect
        if keep or fr.depth == 0:
            self.witness[fn.id] = (seen, norm)
        if fn.noexcept:
            exc = set()
        return (frozenset(norm), frozenset(exc))

    def _succ(self, fr, b, st, back, su, te, headers, push, k):
        fn, rule = fr.fn, self.rule
        live = [(ix, t) for ix, t in enumerate(su) if t >= 0]
        cond = te[1] if te else -1
        kind = te[0] if te else None
        for ix, t in live:
            states = [st]
            form = None
            if kind == "SwitchStmt":
                lab = fn.blocks[t][3]
                r = rule.case(fr, st, cond, lab)
                if r is not None:
                    states = list(r)
            elif cond >= 0 and len(su) == 2:
                form = self.sym.formula(fn, cond, fr.env, ix == 0)
                if kind == "CXXForRangeStmt":
                    # `__begin != __end`
                    pass
                if form == ("const", False):
                    continue
                if rule.nonempty and b in headers and t not in headers[b] and not back and self._iterating(fn, kind, form):
                    continue
                r = rule.branch(fr, st, form, cond)
                if r is not None:
                    states = list(r)
            # loop exits
            for h, body in headers.items():
                if b in body and t not in body:
                    how = "done" if (b == h or self._condblock(fn, b, h, te)) and self._iterating(fn, kind, form) else "break"
                    ns = []
                    for x in states:
                        r = rule.loopexit(fr, x, h, how, te[2] if te else 0)
                        ns += list(r) if r is not None else [x]
                    states = ns
            bk = any(t == h and b in body for h, body in headers.items())
            for x in states:
                push(t, x, bk, k)

    @staticmethod
    def _condblock(fn, b, h, te):
        return te is not None and te[0] in ("ForStmt", "WhileStmt", "CXXForRangeStmt", "DoStmt")

    @staticmethod
    def _iterating(fn, kind, form):
        if kind == "CXXForRangeStmt":
            return True
        if form is None:
            return False
        for a, pol in atoms(form):
            if a.startswith("atend(") or (".size()" in a and "<" in a) or "<end(" in a or "==end(" in a or "end(" in a:
                return True
        return False

    def _elements(self, fn, b, el):
        """the elements of a block the rule can react to"""
        k = (fn.id, b)
        r = self._els.get(k)
        if r is None:
            if self.allel:
                r = el
            else:
                r = []
                for e in el:
                    if isinstance(e, list):
                        if e[0] != "i":
                            r.append(e)
                        continue
                    x = fn.n[e]
                    if x[0] in ("call", "new", "icall", "assign", "throw") or x[0] == "un" and x[2] in ("++", "--", "p++", "p--"):
                        r.append(e)
            self._els[k] = r
        return r

    # ---------------------------------------------------------------------------------------------------------------
    def _element(self, fr, st, e):
        """-> (normal successor states, exceptional states)"""
        fn, rule = fr.fn, self.rule
        if rule.absorbing(st):
            if isinstance(e, int) and fn.n[e][0] == "throw":
                return [], [st]
            if isinstance(e, int) and fn.n[e][0] == "call" and (fn.n[e][2]["q"] in NORETURN or fn.n[e][2].get("nr")):
                return [], ([] if fn.n[e][2]["q"] in EXIT_Q else [st])
            return [st], []
        if isinstance(e, list):
            if e[0] == "~":
                r = rule.dtor(fr, st, e)
                if r is not None:
                    return list(r), []
                d = self.p.fns.get(e[3])
                if d is not None and rule.relevant(d):
                    env = {"this": "local:" + e[1].split("@")[0]}
                    n, x = self._run(Frame(d, env, fr, None), st)
                    return list(n), list(x)
                return [st], []
            if e[0] == "i":
                r = rule.element(fr, st, e)
                return (list(r) if r is not None else [st]), []
            r = rule.dtor(fr, st, e)
            return (list(r) if r is not None else [st]), []
        x = fn.n[e]
        k = x[0]
        rule.stats["events"] += 1
        if k in ("call", "new"):
            return self._call(fr, st, e, x[2])
        if k == "icall":
            return self._icall(fr, st, e)
        if k == "assign" or (k == "un" and x[2] in ("++", "--", "p++", "p--")):
            r = rule.assign(fr, st, e)
            return (list(r) if r is not None else [st]), []
        if k == "throw":
            r = rule.element(fr, st, e)
            return [], (list(r) if r is not None else [st])
        r = rule.element(fr, st, e)
        return (list(r) if r is not None else [st]), []

    def lambda_env(self, fr, f):
        g = fr
        while g:
            if g.fn.id == f.parent_fn:
                return dict(g.env)
            g = g.up
        return {}

    def _icall(self, fr, st, e):
        s = self.sym.r(fr.fn, fr.fn.n[e][3][0], fr.env) if fr.fn.n[e][3] else "?"
        return self._invoke_lambda(fr, st, e, s, fr.fn.n[e][3][1:])

    def _invoke_lambda(self, fr, st, e, s, args):
        rule = self.rule
        if s.startswith("lambda:") or s.startswith("fn:"):
            f = self.p.fns.get(s.split(":", 1)[1])
            if f is not None and rule.relevant(f):
                env = self.lambda_env(fr, f) if s.startswith("lambda:") else {}
                for pr, a in zip(f.params, args):
                    env[pr[1]] = self.sym.r(fr.fn, a, fr.env)
                n, x = self._run(Frame(f, env, fr, e), st)
                return list(n), list(x)
        return [st], ([st] if rule.exceptions else [])

    def exact(self, fr, i, depth=0):
        """the dynamic class of the object node i denotes, when it is certain"""
        if i is None or i < 0 or depth > 8:
            return None
        fn = fr.fn
        x = fn.n[i]
        k = x[0]
        if k == "this":
            return fr.env.get("@this")
        if k == "ref":
            if "@" + str(x[2][2]) in fr.env:
                return fr.env["@" + str(x[2][2])]
            if x[2][1] == "local":
                vd = self.p.vardef(fn, x[2][2])
                if vd:
                    v = vd[0].n[vd[1]]
                    if v[2]["ref"]:
                        return self.exact(Frame(vd[0], fr.env), v[3][0], depth + 1) if v[3] else None
                    t = v[2].get("c") or v[2]["t"].replace("const ", "").strip()
                    if t in self.p.classes:
                        return t
            return None
        if k == "cast" or (k == "un" and x[2] in ("&", "*")):
            return self.exact(fr, x[3][0], depth + 1)
        if k == "call" and x[2]["q"] in ("std::move", "std::forward") and x[3]:
            return self.exact(fr, x[3][0], depth + 1)
        if k == "new" and x[2]["k"] in ("ctor", "copy", "move"):
            return x[2]["t"] if x[2]["t"] in self.p.classes else None
        return None

    def _call(self, fr, st, e, inf):
        fn, rule = fr.fn, self.rule
        r = rule.call(fr, st, e, inf)
        if r is not None:
            if isinstance(r, tuple) and len(r) == 2 and r[0] == "exc":
                return [], list(r[1])
            outn = list(r)
            oute = []
            if rule.exceptions and rule.may_throw(inf):
                oute = list(rule.excstate(fr, st, e))
            return outn, oute
        q = inf["q"]
        if q in NORETURN or inf.get("nr"):
            if q in EXIT_Q:
                return [], []
            return [], [st]
        outn, oute = [], []
        args = fn.args(e)
        last = q.rsplit("::", 1)[-1]
        # calls through function objects
        if last == "operator()" and inf["o"] and inf["id"] not in self.p.fns:
            s = self.sym.r(fn, fn.obj(e), fr.env)
            if s.startswith(("lambda:", "fn:")):
                return self._finish(fr, *self._invoke_lambda(fr, st, e, s, args), e, inf)
        bound = inf.get("rc")
        o = fn.obj(e)
        if o is not None and "#this" in fr.env:
            x = fn.n[o]
            while x[0] == "cast" and x[3]:
                x = fn.n[x[3][0]]
            if x[0] == "this":
                bound = fr.env["#this"]
        tg = self.p.targets(inf, bound)
        ocls = self.exact(fr, fn.obj(e)) if fn.obj(e) is not None else None
        if inf.get("v") and ocls and len(tg) > 1:
            t1 = self.p.override_in(inf["id"], ocls)
            if t1 is not None:
                tg = [self.p.fns[t1]] if t1 in self.p.fns else []
        tg = [t for t in tg if rule.allow(t)]
        rel = [t for t in tg if rule.relevant(t)]
        if rel:
            o = fn.obj(e)
            osym = self.sym.r(fn, o, fr.env) if o is not None else None
            asym = [self.sym.r(fn, a, fr.env) for a in args]
            acls = [self.exact(fr, a) for a in args]
            for t in rel:
                env = {}
                if t.kind == "lambda":
                    env = self.lambda_env(fr, t)
                elif osym is not None:
                    env["this"] = osym
                    if ocls:
                        env["@this"] = ocls
                    elif bound and bound != t.cls and bound in self.p.classes:
                        env["#this"] = bound
                elif t.kind == "ctor":
                    env["this"] = f"new:{t.cls}"
                for pr, a, c in zip(t.params, asym, acls):
                    env[pr[1]] = a
                    if c:
                        env["@" + str(pr[1])] = c
                n, x = self._run(Frame(t, env, fr, e), st)
                outn += n
                oute += x
            if len(rel) < len(tg):
                outn.append(st)
                if rule.exceptions and rule.may_throw(inf):
                    oute.append(st)
            return self._finish(fr, outn, oute, e, inf)
        # lambdas handed to a function outside the repository: it may run them
        lam = []
        if not inf.get("r") or q not in self.p.byq:
            for a in args:
                s = self.sym.r(fn, a, fr.env)
                if s.startswith("lambda:"):
                    f = self.p.fns.get(s[7:])
                    if f is None:
                        continue
                    if rule.relevant(f):
                        lam.append((f, a))
        if lam and not rule_async(q):
            cur = {st}
            res = set() if rule.nonempty else {st}
            ranges = [self.sym.r(fn, a, fr.env) for a in args]
            el = None
            for s in ranges:
                if s.startswith("iter("):
                    el = "elem" + s[4:]
                    break
            work, seen = [st], set()
            while work:
                x0 = work.pop()
                if x0 in seen:
                    continue
                seen.add(x0)
                for f, a in lam:
                    env = self.lambda_env(fr, f)
                    for pr in f.params[:1]:
                        env[pr[1]] = el or f"param:{pr[0]}"
                    n, x = self._run(Frame(f, env, fr, e), x0)
                    oute += x
                    for y in n:
                        if y not in res:
                            res.add(y)
                            work.append(y)
            ns = []
            for x0 in res:
                r2 = rule.loopexit(fr, x0, None, "done", fn.ln(e)) if el else None
                ns += list(r2) if r2 is not None else [x0]
            return self._finish(fr, ns, oute, e, inf)
        if rule.exceptions and rule.may_throw(inf):
            oute = list(rule.excstate(fr, st, e))
        return self._finish(fr, [st], oute, e, inf)

    def _finish(self, fr, outn, oute, e, inf):
        res = []
        for x in outn:
            r = self.rule.after(fr, x, e, inf)
            res += list(r) if r is not None else [x]
        return list(dict.fromkeys(res)), list(dict.fromkeys(oute))

    # ---------------------------------------------------------------------------------------------------------------
    def _catchblock(self, fn, node):
        m = self._label.get(fn.id)
        if m is None:
            m = {}
            for b, (el, su, te, la, nr) in fn.blocks.items():
                if la >= 0:
                    m[la] = b
            self._label[fn.id] = m
        return m.get(node)

    def _unwind(self, fr, node, st, push, exc, frm):
        fn = fr.fn
        if node is None:
            exc.add(st)
            return
        states = [st]
        c = node
        dts = None
        for a in fn.ancestors(node):
            k = fn.n[a][0]
            ch = fn.n[a][3]
            lives = []
            if k == "block" and c in ch:
                for j in ch[:ch.index(c)]:
                    if fn.n[j][0] == "decl":
                        lives += [v for v in fn.n[j][3] if fn.n[v][0] == "var"]
            elif k == "decl" and c in ch:
                lives = [v for v in ch[:ch.index(c)] if fn.n[v][0] == "var"]
            elif k in ("if", "while", "for", "forrange", "switch"):
                lives = [v for j in ch if j != c and fn.n[j][0] == "decl" for v in fn.n[j][3] if fn.n[v][0] == "var"]
            for v in reversed(lives):
                inf = fn.n[v][2]
                if inf["ref"] or inf["static"] or "c" not in inf:
                    continue
                if dts is None:
                    dts = {}
                    for b, (el, su, te, la, nr) in fn.blocks.items():
                        for e in el:
                            if isinstance(e, list) and e[0] == "~":
                                dts[e[1]] = e
                el = dts.get(inf["d"])
                if el is None:
                    continue
                ns = []
                for x in states:
                    n, _ = self._element(fr, x, el)
                    ns += n
                states = list(dict.fromkeys(ns))
            if k == "try" and ch and ch[0] == c:
                stop = False
                for h in ch[1:]:
                    cb = self._catchblock(fn, h)
                    if cb is not None:
                        for x in states:
                            r = self.rule.case(fr, x, None, h)
                            for y in (r if r is not None else (x,)):
                                push(cb, y, False, frm)
                    if fn.n[h][2][0] == "...":
                        stop = True
                if stop:
                    return
            c = a
        for x in states:
            exc.add(x)

    def path(self, fn, st):
        """lines of the branch decisions of one path of the root function that ends in state st"""
        w = self.witness.get(fn.id)
        if not w or st not in w[1]:
            return ""
        seen, norm = w
        k = norm[st]
        out = []
        while k is not None:
            b = k[0]
            te = fn.blocks[b][2]
            if te:
                out.append(str(te[2]))
            else:
                for e in fn.blocks[b][0]:
                    if isinstance(e, int) and fn.n[e][0] == "return":
                        out.append(f"return@{fn.n[e][1]}")
            k = seen.get(k)
        out.reverse()
        return "path through lines " + ",".join(out) if out else "straight-line path"


def rule_async(q):
    return q in ("std::async", "std::thread::<ctor>", "std::jthread::<ctor>", "std::make_unique", "std::make_shared") or \
        "thread" in q
