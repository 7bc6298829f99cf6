"""P20 background work: outcome of asynchronous iterators, join before destruction, captures, failures of workers"""
import re

from vt.engine import Engine, Rule
from vt.lib import CallPred, deepflows, expand, last, must_pass, ordered, par
from vt.prog import Sym, atoms

TECHNIQUE = "typestate analysis of the thread bodies (normal, failed, cancelled), exception-escape analysis of thread entry points, must-join analysis of destructors, lifetime analysis of lambda captures"
FLOORS = {"outcome": 3, "join": 3, "escape": 2, "capture": 3, "keep": 3, "through": 1, "drain": 1}
ASSUMPTIONS = ["eckit::Queue: pop returns -1 only once the queue is closed and empty, and every operation throws the exception given to interrupt",
               "the destructor of a future made by std::async waits for its task"]
QUEUE = re.compile(r"^eckit::Queue::")


def queue_op(inf, *names):
    return QUEUE.match(inf["q"]) and last(inf["q"]) in names


class Body(Rule):
    """the body of the thread of an asynchronous iterator"""
    exceptions = True

    def __init__(self, p, queue):
        super().__init__(p)
        self.queue = queue
        self.bad = {}
        self.ran = 0

    def interesting(self, fn):
        return False

    def relevant(self, fn):
        return fn.cls == self.cls or fn.file == self.file

    def may_throw(self, inf):
        return not queue_op(inf, "interrupt", "close", "closed") and "exception_ptr" not in inf["q"] and "current_exception" not in inf["q"] and super().may_throw(inf)

    def on(self, fr, i):
        o = fr.fn.obj(i)
        return o is not None and re.search(self.queue, expand(self.sym, fr.fn, self.sym.r(fr.fn, o, fr.env), fr.env))

    def excstate(self, fr, st, i):
        return ("thrown",)

    def call(self, fr, st, i, inf):
        if last(inf["q"]) == "operator()" and any(re.search(self.queue, self.sym.r(fr.fn, a, fr.env)) for a in fr.fn.args(i)):
            self.ran += 1
            return ("ran",)
        if queue_op(inf, "close") and self.on(fr, i):
            if st != "ran":
                self.bad[i] = (fr.fn.loc(i), f"the queue is closed although the work is not done ({st})")
            return ("closed",)
        if queue_op(inf, "interrupt") and self.on(fr, i):
            if not any("current_exception" in expand(self.sym, fr.fn, self.sym.r(fr.fn, a, fr.env), fr.env) for a in fr.fn.args(i)):
                self.bad[i] = (fr.fn.loc(i), "the queue is interrupted with something else than the exception that was caught")
            return ("told",)
        return None

    def element(self, fr, st, i):
        if isinstance(i, int) and fr.fn.n[i][0] == "catch":
            t = fr.fn.n[i][2][0]
            return ("cancelled" if "AsyncIterationCancellation" in t else "caught",)
        return None


class Drain(Rule):
    """an input queue is empty or dead whenever its only consumer ends"""
    exceptions = True

    def __init__(self, p):
        super().__init__(p)
        self.pops = 0

    def interesting(self, fn):
        return any(queue_op(inf, "pop", "interrupt", "close") for _, inf in fn.calls())

    def allow(self, fn):
        return self.near(fn)

    def may_throw(self, inf):
        return not queue_op(inf, "interrupt", "close", "closed") and "exception_ptr" not in inf["q"] and "current_exception" not in inf["q"] and super().may_throw(inf)

    def inq(self, fr, i):
        o = fr.fn.obj(i)
        if o is None:
            return False
        t = expand(self.sym, fr.fn, self.sym.r(fr.fn, o, fr.env), fr.env)
        return not re.match(self.out, t)

    def call(self, fr, st, i, inf):
        if queue_op(inf, "pop") and self.inq(fr, i):
            self.pops += 1
            return ("open",)
        if queue_op(inf, "interrupt", "close") and self.inq(fr, i):
            return ("done",)
        return None

    def excstate(self, fr, st, i):
        inf = fr.fn.n[i][2]
        return ("done",) if queue_op(inf, "pop") and self.inq(fr, i) else (st,)

    def branch(self, fr, st, form, cond):
        for a, pol in atoms(form):
            m = re.search(r"-1==.*\.pop\(|\.pop\(.*==-1|<.*\.pop\(|\.pop\(.*<", a)
            if m:
                f = self.sym.formula(fr.fn, cond, fr.env, True)
                neg = self.ended(a, pol)
                return ("done",) if neg else ("open",)
        return None

    @staticmethod
    def ended(a, pol):
        if "==" in a and "-1" in a:
            return pol
        if re.match(r".*\.pop\(.*<0$", a):
            return pol
        return False


def run(ctx):
    p = ctx.p
    sym = Sym(p)
    src = lambda f: "/tools/" not in f.file

    its = [c for c in p.classes if any(b.startswith("fdb5::APIIteratorBase") for b in p.superclasses(c)) and any("std::thread" in (f[1] or "") for f in p.classes[c]["fields"])]
    ctx.need(its, "no asynchronous iterator is left")
    for c in sorted(its):
        fields = p.classes[c]["fields"]
        thread = [f[0] for f in fields if "std::thread" in f[1]]
        queue = [f[0] for f in fields if "eckit::Queue" in f[1]]
        own = [f[0] for f in fields if "shared_ptr" in f[1] and "FDBBase" in f[1]]
        meths = [f for f in p.fns.values() if f.cls == c and f.blocks]
        bodies = []
        for f in meths:
            if f.kind != "ctor":
                continue
            for g in p.lambdas_of(f):
                g = p.fns[g] if isinstance(g, str) else g
                if any(queue_op(inf, "close", "interrupt") for _, inf in g.calls()):
                    bodies.append((f, g))
        if not bodies:
            continue
        ctx.need(queue and thread, f"{c}: no queue")
        Q = r"(^|\.)" + re.escape(queue[0]) + r"$"
        for f, g in bodies:
            r = Body(p, Q)
            r.cls, r.file = c, f.file
            n, e = Engine(p, r).run(g, "start", None)
            ctx.count(r)
            b = sorted(r.bad.values())
            ctx.ob("outcome", f"{c}: the end of the work is told", not b and r.ran > 0 and set(n) <= {"closed", "told", "cancelled"} and "closed" in n, b[0][0] if b else g.loc(),
                   b[0][1] if b else f"states at the end: {sorted(n)}")
            ctx.ob("outcome", f"{c}: a failure of the work is told", "told" in n and "caught" not in n, g.loc(), f"states at the end: {sorted(n)}")
            ctx.ob("outcome", f"{c}: nothing escapes from the thread", not e, g.loc(), f"states with which an exception leaves: {sorted(e)}")
            ctx.functions.add(g.id)

        dt = [f for f in meths if f.kind == "dtor"]
        ctx.need(dt, f"{c} has no destructor")
        T = r"(^|\.)" + re.escape(thread[0]) + r"$"
        join = CallPred(r"^std::thread::join$", obj=T)
        must_pass(ctx, "join", dt[0], [join], sanction=[(r"" + re.escape(thread[0]) + r"\.joinable\(\)", False)], what="the worker is over before its queue goes away")
        ordered(ctx, "join", dt[0], [CallPred(r"^eckit::Queue::interrupt$", obj=Q, args={0: r"AsyncIterationCancellation"})], [join], "a worker that is still running is told to stop", sanction=[(re.escape(queue[0]) + r"\.closed\(\)", True)])
        for f in meths:
            if f.kind != "ctor":
                continue
            ps = [x[0] for x in f.params if "shared_ptr" in x[2] and "FDBBase" in x[2]]
            vals = [sym.r(f, it[2]) for it in f.inits if it[0] == "field" and last(it[1]) in own and it[2] is not None and it[2] >= 0]
            ctx.ob("keep", f"{c}: keeps what the worker works for alive", bool(own) and bool(ps) and any(f"param:{x}" in v for x in ps for v in vals), f.loc(), f"{own} {vals}")
        for f in meths:
            if f.name != "next":
                continue
            r = Next(p, Q)
            Engine(p, r).run(f, "-", None)
            ctx.count(r)
            b = sorted(r.bad.values())
            ctx.ob("outcome", f"{c}: says that there is no more exactly at the end of the queue", not b and r.n > 0, b[0][0] if b else f.loc(), b[0][1] if b else f"{r.n} return(s)")

    # who makes them
    for f in sorted(p.fns.values(), key=lambda g: g.id):
        for i, inf in f.calls():
            if inf["q"].startswith("fdb5::APIAsyncIterator") and f.n[i][0] == "new":
                a = f.args(i)
                t = expand(sym, f, sym.r(f, a[0]))
                ctx.ob("keep", f"{f.id}: hands a share of the FDB to its iterator", bool(re.search(r"shared_from_this\(\)|\.?\bshared\(\)", t)), f.loc(i), t)
                capture(ctx, f, a[1], "iterator", i)

    # cancellation and failures go through whatever is between the queue and the worker
    emp = {f.id for f in p.fns.values() for i, inf in f.calls() if queue_op(inf, "emplace", "push") and src(f) and "remote/" not in f.file}
    up = p.can_reach(emp)
    seen = set()
    k = 0
    for f in sorted(p.fns.values(), key=lambda g: g.id):
        if f.id not in up or not src(f) or not f.file.startswith("fdb5/") or "remote/" in f.file or re.search("APIIterator.h$|fdb_c.cc$", f.file):
            continue
        for i, x in enumerate(f.n):
            if x[0] != "try" or not x[3]:
                continue
            inside = [inf for j, inf in f.calls() if j in set(f.walk(x[3][0]))]
            if not any(queue_op(inf, "emplace", "push") or any(t.id in up for t in p.targets(inf)) for inf in inside):
                continue
            k += 1
            for h in x[3][1:]:
                if f.n[h][0] != "catch":
                    continue
                ty = f.n[h][2][0]
                if ty != "..." and not re.search(r"\b(eckit::Exception|std::exception|AsyncIterationCancellation)\b", ty):
                    continue
                r = Rethrow(p)
                n, _ = Engine(p, r).run(f, "-", None)
                for st in n:
                    if st.startswith("in:"):
                        r.swallowed[int(st[3:])] = True
                ctx.ob("through", f"{f.id}: passes the exceptions of the queue on", not r.swallowed.get(h), f.loc(h), f"handler for {ty}")
    ctx.ob("through", "handlers between the queue of an iterator and its worker", True, "", f"{k} try block(s)")

    # the entry points of threads
    done = set()
    for f in sorted(p.fns.values(), key=lambda g: g.id):
        if not src(f):
            continue
        for i, inf in f.calls():
            thr = inf["q"] == "std::thread::<ctor>" and f.args(i)
            asy = inf["q"] == "std::async"
            if not thr and not asy:
                continue
            fn_arg = f.args(i)[1 if asy else 0]
            g, ok = entry(p, sym, f, fn_arg)
            if g is None:
                ctx.ob("escape", f"{f.id}: what the thread runs is known", not re.search(r"^lambda|^fn:", ok), f.loc(i), ok)
                continue
            capture(ctx, f, fn_arg, "thread" if thr else "task", i)
            if g.id in done:
                continue
            done.add(g.id)
            pops = consumes(p, g)
            if pops and not any(g.parent_fn == x.id for x in p.fns.values() if x.cls and x.cls in its):
                r = Drain(p)
                r.near = lambda h, g=g: h.file == g.file
                r.out = r"^$"
                n, e = Engine(p, r).run(g, "idle", None)
                ctx.count(r)
                if asy:
                    ctx.ob("drain", f"{short(p, g)}: whoever feeds the queue learns that nobody empties it any more", "open" not in e and r.pops > 0, g.loc(), f"states with which an exception leaves: {sorted(e)}")
                else:
                    ctx.ob("drain", f"{short(p, g)}: ends only with its queue", "open" not in n and r.pops > 0, g.loc(), f"states at the end: {sorted(n)}")
            if thr and (pops or "client" in g.file):
                w = escapes(p, g)
                ctx.ob("escape", f"{short(p, g)}: nothing escapes from the thread", w is None, g.loc(), w or "every call that may throw is below a handler for everything")

    # input queues of the workers of iterators
    for f in sorted(p.fns.values(), key=lambda g: g.id):
        for i, inf in f.calls():
            if not (inf["q"].startswith("fdb5::APIAsyncIterator") and f.n[i][0] == "new"):
                continue
            g, _ = entry(p, sym, f, f.args(i)[1])
            if g is None or not consumes(p, g):
                continue
            r = Drain(p)
            r.near = lambda h, g=g: h.file == g.file
            r.out = r"^param:" + (g.params[0][0] if g.params else "queue") + "$"
            n, e = Engine(p, r).run(g, "idle", None)
            ctx.count(r)
            ctx.functions.add(g.id)
            ctx.ob("drain", f"{f.id}: an abandoned iterator does not block whoever feeds it", "open" not in set(n) | set(e) and r.pops > 0, g.loc(), f"states at the end: {sorted(n)}, with an exception: {sorted(e)}")


class Next(Rule):
    def __init__(self, p, queue):
        super().__init__(p)
        self.queue = queue
        self.bad = {}
        self.n = 0

    def interesting(self, fn):
        return False

    def relevant(self, fn):
        return False

    def end(self, form, st):
        """what a branch says about the end of the queue"""
        for a, pol in atoms(form):
            if ".pop(" in a and "-1" in a and "==" in a:
                return "end" if pol else "more"
            if re.search(r"\.pop\(.*<0$", a):
                return "end" if pol else "more"
        return None

    def branch(self, fr, st, form, cond):
        e = self.end(form, st)
        return (e,) if e else None

    def element(self, fr, st, i):
        if isinstance(i, int) and fr.fn.n[i][0] == "return" and fr.up is None and fr.fn.n[i][3]:
            v = fr.fn.n[i][3][0]
            t = expand(self.sym, fr.fn, self.sym.r(fr.fn, v, fr.env), fr.env)
            self.n += 1
            if t in ("true", "false"):
                if (st == "more") != (t == "true"):
                    self.bad[i] = (fr.fn.loc(i), f"returns {t} where the queue has {'an element' if st == 'more' else 'ended' if st == 'end' else 'not been asked'}")
            else:
                f = self.sym.formula(fr.fn, v, fr.env, True)
                e = self.end(f, st)
                if e != "more":
                    self.bad[i] = (fr.fn.loc(i), f"returns `{t}`, which does not say whether an element was there")
        return None


class Rethrow(Rule):
    exceptions = True

    def __init__(self, p):
        super().__init__(p)
        self.swallowed = {}

    def interesting(self, fn):
        return False

    def relevant(self, fn):
        return False

    def branch(self, fr, st, form, cond):
        """a flag that only ever has one value does not branch"""
        for a, pol in atoms(form):
            m = re.match(r"^this\.(\w+)$", a)
            if m and st.startswith("in:") and fr.fn.cls:
                v = written(self.p, fr.fn.cls, m.group(1))
                if v and v <= {"true", "false"} and len(v) == 1 and ("true" in v) != pol:
                    return ("never",)
        return None

    def element(self, fr, st, i):
        if isinstance(i, int) and fr.fn.n[i][0] == "catch":
            return (f"in:{i}",)
        if isinstance(i, int) and st.startswith("in:") and fr.fn.n[i][0] != "throw":
            h = int(st[3:])
            if i not in set(fr.fn.walk(h)):
                self.swallowed[h] = True
            elif fr.fn.n[i][0] == "return":
                self.swallowed[h] = True
        return None


def written(p, cls, member):
    """what the functions of the class store in the member"""
    sym, out = Sym(p), set()
    for f in p.fns.values():
        if f.cls != cls:
            continue
        for it in f.inits:
            if it[0] == "field" and last(it[1]) == member:
                out.add(sym.r(f, it[2]) if it[2] is not None and it[2] >= 0 else "?")
        for i, x in enumerate(f.n):
            if x[0] == "mem" and x[2][0] == member:
                up = next(iter(f.ancestors(i)), None)
                if up is None:
                    continue
                y = f.n[up]
                if y[0] == "assign" and y[3][0] == i:
                    out.add(sym.r(f, y[3][1]) if y[2] == "=" else "?")
                elif y[0] == "un" and y[2] in ("&", "++", "--") or y[0] == "call" and not y[2]["k"] == "op" and i in f.args(up):
                    out.add("?")
    return out


def short(p, g):
    f = g
    while f.parent_fn and f.parent_fn in p.fns:
        f = p.fns[f.parent_fn]
    return f"{f.id}: thread" if f is not g else f.id


def entry(p, sym, f, node):
    """the function object that node denotes"""
    t = expand(sym, f, sym.r(f, node))
    m = re.search(r"(?:lambda|fn):(\S.*?\)(?:const)?)(?=\)*$|,)", t)
    for i in f.walk(node):
        if f.n[i][0] == "lambda":
            return p.fns.get(f.n[i][2]["f"]), t
    for i in f.walk(node):
        if f.n[i][0] == "ref":
            x = f.n[i][2]
            vd = p.vardef(f, x[2]) if x[1] == "local" else None
            if vd and vd[0].n[vd[1]][3]:
                for j in vd[0].walk(vd[1]):
                    if vd[0].n[j][0] == "lambda":
                        return p.fns.get(vd[0].n[j][2]["f"]), t
            if x[2] in p.fns:
                return p.fns[x[2]], t
    return None, t


def lambda_node(p, f, node):
    for i in f.walk(node):
        if f.n[i][0] == "lambda":
            return f, i
        if f.n[i][0] == "ref" and f.n[i][2][1] == "local":
            vd = p.vardef(f, f.n[i][2][2])
            if vd:
                for j in vd[0].walk(vd[1]):
                    if vd[0].n[j][0] == "lambda":
                        return vd[0], j
    return None, None


def consumes(p, g):
    """does g, or a function of the same class that it calls, take elements from a queue?"""
    seen, w = set(), [g]
    while w:
        f = w.pop()
        if f.id in seen:
            continue
        seen.add(f.id)
        for i, inf in f.calls():
            if queue_op(inf, "pop"):
                return True
            for t in p.targets(inf):
                if t.file == g.file and len(seen) < 40:
                    w.append(t)
    return False


def escapes(p, g, seen=()):
    """a call of g that may throw outside of a handler for everything"""
    if g.id in seen or not g.blocks:
        return None
    for i, x in enumerate(g.n):
        if x[0] not in ("call", "new", "icall", "throw"):
            continue
        prot = hand = False
        child = i
        for a in g.ancestors(i):
            y = g.n[a]
            if y[0] == "try" and y[3] and child == y[3][0] and any(g.n[c][0] == "catch" and g.n[c][2][0] == "..." for c in y[3][1:]):
                prot = True
            if y[0] == "catch":
                hand = True
            child = a
        if prot:
            continue
        if x[0] == "throw":
            return f"{g.loc(i)}: throws"
        if hand:
            continue
        if x[0] == "icall":
            return f"{g.loc(i)}: calls through a pointer"
        inf = x[2]
        if inf.get("nx") or queue_op(inf, "pop", "close", "interrupt", "closed", "empty") or inf["q"].startswith(("std::", "eckit::Log", "eckit::Timer", "eckit::Buffer", "eckit::CodeLocation")) or "<ctor>" in inf["q"] and "::MessageHeader" in inf["q"]:
            continue
        ts = p.targets(inf)
        if not ts:
            if re.search(r"operator<<|Log::|LibFdb5|eckit::Library|<dtor>", inf["q"]):
                continue
            return f"{g.loc(i)}: {inf['q']} may throw"
        for t in ts:
            if t.name == "<ctor>" or t.kind == "ctor" or re.search(r"LibFdb5", t.q):
                continue
            w = escapes(p, t, seen + (g.id,))
            if w:
                return w
    return None


def capture(ctx, f, node, what, at):
    """the variables of the caller that a background task refers to outlive it"""
    p = ctx.p
    h, ln = lambda_node(p, f, node)
    if ln is None:
        return
    pay = h.n[ln][2]
    refs = [c for c in pay.get("cap") or [] if c[1] == "ref"]
    inst = f"{h.id}: what the {what} refers to outlives it"
    if not refs:
        ctx.ob("capture", inst, True, h.loc(ln), "captures by value only")
        return
    # the variable that holds the task
    keeper = None
    child = at
    for a in h.ancestors(at) if f is h else []:
        y = h.n[a]
        if y[0] == "var":
            keeper = y[2]["d"]
            break
        if y[0] in ("call", "assign") and keeper is None:
            o = h.obj(a) if y[0] == "call" else y[3][0]
            if o is not None:
                for j in h.walk(o):
                    if h.n[j][0] == "ref" and h.n[j][2][1] == "local":
                        keeper = h.n[j][2][2]
                        break
            if keeper:
                break
    bad = []
    if what == "iterator" or keeper is None:
        bad = [c[0] for c in refs]
        why = f"{', '.join(bad)} captured by reference although the {what} may outlive the call"
    else:
        order = list(h.vars)
        scope = lambda d: [a for a in h.ancestors(h.vars[d]) if h.n[a][0] in ("block", "for", "forrange", "if", "while")][:1]
        kp = order.index(keeper)
        for c in refs:
            d = c[2]
            if d not in h.vars:
                continue  # a parameter or a variable of an enclosing function
            inner = scope(d) != scope(keeper) and scope(d) and scope(keeper) and scope(keeper)[0] in list(h.ancestors(scope(d)[0]))
            if h.n[h.vars[d]][2].get("static"):
                continue
            if h.vars[d] > h.vars[keeper] or inner:
                bad.append(c[0])
        why = f"{', '.join(bad)} goes away before the {what} is waited for when an exception leaves" if bad else f"{', '.join(c[0] for c in refs)} outlive the {what}"
        if what == "thread":
            bad = bad or [c[0] for c in refs]
    ctx.ob("capture", inst, not bad, h.loc(ln), why)
    if not bad:
        # failures of the tasks are collected
        got = any(last(inf["q"]) == "get" and "future" in inf["q"] for _, inf in h.calls())
        ctx.ob("capture", f"{h.id}: failures of the tasks are collected", got, h.loc(at), "get() of each future" if got else "no future is asked for its result")
