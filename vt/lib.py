"""Rule templates built on the typestate engine."""
import re

from . import facts
from .engine import Engine, Rule
from .prog import Sym, atoms, implied


def last(q):
    return q.rsplit("::", 1)[-1]


def sanctioned(form, pats):
    """is every way of making the formula true covered by an allowed (regex, polarity)?"""
    if form[0] == "atom":
        return any(form[2] == pol and re.search(rx, form[1]) for rx, pol in pats)
    if form[0] == "and":
        return any(sanctioned(g, pats) for g in form[1])
    if form[0] == "or":
        return all(sanctioned(g, pats) for g in form[1])
    return False


ATOMIC = ("operator=", "operator++", "operator+=", "store", "fetch_add", "exchange")


def zero(rx):
    """sanctions for branches on which the count matching rx is known to be zero"""
    return [(rf"^0==({rx})$", True), (rf"^({rx})==0$", True), (rf"^({rx})$", False), (rf"^0<({rx})$", False), (rf"^({rx})<1$", True)]


class CallPred:
    """matches call events: by qualified-name regex, receiver regex and argument regexes"""

    def __init__(self, q, obj=None, args=None, field=None):
        self.q = re.compile(q)
        self.obj = re.compile(obj) if obj else None
        self.args = args

    def quick(self, inf):
        return bool(self.q.search(inf["q"]))

    def __call__(self, sym, fr, i, inf):
        if not self.q.search(inf["q"]):
            return False
        if self.obj:
            o = fr.fn.obj(i)
            if o is None or not self.obj.search(sym.r(fr.fn, o, fr.env)):
                return False
        if self.args:
            a = fr.fn.args(i)
            for ix, rx in self.args.items():
                if ix >= len(a) or not re.search(rx, sym.r(fr.fn, a[ix], fr.env)):
                    return False
        return True


class AssignPred:
    """matches assignments (=, ++, +=, atomics) to a member or variable"""

    def __init__(self, lhs, rhs=None, ops=("=",)):
        self.lhs = re.compile(lhs)
        self.rhs = re.compile(rhs) if rhs else None
        self.ops = ops

    def quick(self, fn):
        """may fn contain a matching assignment? (by the name of the assigned member or variable)"""
        for x in fn.n:
            t = None
            if x[0] == "assign" or (x[0] == "un" and x[2] in ("++", "--", "p++", "p--")):
                t = x[3][0]
            elif x[0] == "call" and x[2]["k"] in ("op", "m") and last(x[2]["q"]) in ATOMIC and x[3]:
                t = x[3][0]
            if t is None:
                continue
            y = fn.n[t]
            while y[0] in ("cast", "un", "idx") and y[3]:
                y = fn.n[y[3][0]]
            nm = y[2][0] if y[0] in ("mem", "ref") else None
            if nm is None or self.lhs.search("." + nm) or self.lhs.search("local:" + nm) or y[0] == "ref":
                return True
        return False

    def __call__(self, sym, fr, i):
        x = fr.fn.n[i]
        if x[0] == "assign":
            if x[2] not in self.ops:
                return False
            if not self.lhs.search(sym.r(fr.fn, x[3][0], fr.env)):
                return False
            return self.rhs is None or bool(self.rhs.search(sym.r(fr.fn, x[3][1], fr.env)))
        if x[0] == "un":
            return x[2] in self.ops and bool(self.lhs.search(sym.r(fr.fn, x[3][0], fr.env)))
        return False


NEED, HIT, DONE, EXEMPT = "need", "hit", "done", "exempt"


class MustPass(Rule):
    """Every path from the root's entry to a normal exit passes an event matching one of `targets`, unless a sanctioned
    branch was taken. With `forall`, the event must happen in each iteration of a loop over a container whose
    rendering matches, and that loop must run to its end."""

    def __init__(self, prog, targets, sanction=(), forall=None, assigns=(), allow=None, inline_stop=None):
        super().__init__(prog)
        self.targets = targets
        self.sanction = sanction
        self.forall = re.compile(forall) if forall else None
        self.assigns = assigns
        self._allow = allow
        self.hits = {}
        self.inline_stop = inline_stop

    def allow(self, fn):
        if self.inline_stop and self.inline_stop(fn):
            return False
        return self._allow(fn) if self._allow else True

    def interesting(self, fn):
        for i, x in enumerate(fn.n):
            if x[0] in ("call", "new") and any(t.quick(x[2]) for t in self.targets):
                return True
        return any(a.quick(fn) for a in self.assigns)

    def absorbing(self, st):
        return st in (DONE, EXEMPT)

    def _hit(self, fr, st, i):
        self.hits[(fr.fn.id, i)] = fr.fn.loc(i)
        if st == EXEMPT:
            return (st,)
        if self.forall:
            return (HIT,) if st == NEED else (st,)
        return (DONE,)

    def call(self, fr, st, i, inf):
        for t in self.targets:
            if t(self.sym, fr, i, inf):
                return self._hit(fr, st, i)
        if self.assigns and inf["k"] in ("op", "m"):
            # atomics and class-type members
            l = last(inf["q"])
            if l in ATOMIC:
                o = fr.fn.n[i][3][0]
                s = self.sym.r(fr.fn, o, fr.env)
                for a in self.assigns:
                    if a.lhs.search(s):
                        ar = fr.fn.args(i)
                        if a.rhs is None or l == "operator++" or (ar and a.rhs.search(self.sym.r(fr.fn, ar[0], fr.env))):
                            return self._hit(fr, st, i)
        return None

    def assign(self, fr, st, i):
        for a in self.assigns:
            if a(self.sym, fr, i):
                return self._hit(fr, st, i)
        return None

    def branch(self, fr, st, form, cond):
        if st == NEED and sanctioned(form, self.sanction):
            return (EXEMPT,)
        if self.forall and st == NEED:
            # nothing to iterate over
            for a, pol in implied(form):
                if a.startswith("empty(") and pol and self.forall.search(a):
                    return (EXEMPT,)
        return None

    def loopexit(self, fr, st, header, how, line):
        if self.forall and how == "done" and st == HIT:
            if header is None:
                return (DONE,)
            te = fr.fn.blocks[header][2]
            if te and te[1] >= 0:
                s = self.sym.r(fr.fn, te[1], fr.env)
                if self.forall.search(s):
                    return (DONE,)
        return None


def must_pass(ctx, rule, root, targets, sanction=(), forall=None, what="", assigns=(), env=None, **kw):
    """report an obligation for each root function"""
    r = MustPass(ctx.p, targets, sanction, forall, assigns, **kw)
    e = Engine(ctx.p, r)
    n, _ = e.run(root, NEED, env)
    ctx.count(r)
    bad = [s for s in n if s in (NEED, HIT)]
    inst = f"{root.q}: {what}"
    if not r.hits:
        ctx.ob(rule, inst, False, root.loc(), "the required action does not occur below this function")
        return False
    if not bad:
        ctx.ob(rule, inst, True, root.loc(), f"{len(r.hits)} target site(s), {len(r.stats['functions'])} function(s) on the way")
        return True
    s = bad[0]
    why = "an iteration skips it, or the loop may be left early" if (forall and s == HIT) else "a path to a normal exit does not pass it"
    ctx.ob(rule, inst, False, root.loc(), f"{why}; {e.path(root, s)}; sites seen: {sorted(r.hits.values())[:4]}")
    return False


class Ordered(Rule):
    """No event matching `then` happens before an event matching `first` on any path."""
    PENDING, SEEN = "pending", "seen"

    def __init__(self, prog, first, then, sanction=(), fassign=(), tassign=(), allow=None, reset=None, loops_reset=False):
        super().__init__(prog)
        self.first, self.then = first, then
        self.sanction = sanction
        self.fassign, self.tassign = fassign, tassign
        self._allow = allow
        self.resetp = reset
        self.first_hits, self.then_hits = {}, {}
        self.bad = {}
        self.count = True

    def allow(self, fn):
        return self._allow(fn) if self._allow else True

    def interesting(self, fn):
        for i, x in enumerate(fn.n):
            if x[0] in ("call", "new") and any(t.quick(x[2]) for t in (*self.first, *self.then)):
                return True
        return any(a.quick(fn) for a in (*self.fassign, *self.tassign))

    def absorbing(self, st):
        return st == self.SEEN and not self.resetp and not self.count

    def call(self, fr, st, i, inf):
        for t in self.then:
            if t(self.sym, fr, i, inf):
                self.then_hits[(fr.fn.id, i)] = fr.fn.loc(i)
                if st == self.PENDING:
                    self.bad[(fr.fn.id, i)] = (fr.fn.loc(i), inf["q"], fr.chain())
                if self.resetp:
                    return (self.PENDING,)
                return None if not any(t2(self.sym, fr, i, inf) for t2 in self.first) else (self.SEEN,)
        for t in self.first:
            if t(self.sym, fr, i, inf):
                self.first_hits[(fr.fn.id, i)] = fr.fn.loc(i)
                return (self.SEEN,)
        return None

    def assign(self, fr, st, i):
        for a in self.tassign:
            if a(self.sym, fr, i):
                self.then_hits[(fr.fn.id, i)] = fr.fn.loc(i)
                if st == self.PENDING:
                    self.bad[(fr.fn.id, i)] = (fr.fn.loc(i), "assignment", fr.chain())
        for a in self.fassign:
            if a(self.sym, fr, i):
                self.first_hits[(fr.fn.id, i)] = fr.fn.loc(i)
                return (self.SEEN,)
        return None

    def branch(self, fr, st, form, cond):
        if st == self.PENDING and self.sanction and sanctioned(form, self.sanction):
            return (self.SEEN,)
        return None


def ordered(ctx, rule, root, first, then, what, env=None, need_then=True, exc=False, **kw):
    r = Ordered(ctx.p, first, then, **kw)
    r.exceptions = exc
    e = Engine(ctx.p, r)
    e.run(root, Ordered.PENDING, env)
    ctx.count(r)
    inst = f"{root.q}: {what}"
    if not r.then_hits:
        if not need_then:
            return True
        ctx.ob(rule, inst, False, root.loc(), "the ordered action does not occur at all below this function")
        return False
    if r.bad:
        loc, q, ch = sorted(r.bad.values())[0]
        ctx.ob(rule, inst, False, loc, f"{q} is reached before the required action; call chain {ch}")
        return False
    ctx.ob(rule, inst, True, root.loc(), f"{len(r.first_hits)} first site(s), {len(r.then_hits)} later site(s)")
    return True


class Followed(Rule):
    """Once an event of `first` happened, every path to a normal exit (and, with exc, to an exceptional one) passes an event
    of `then`; with `either`, an earlier `then` counts as well."""

    def __init__(self, prog, first, then, sanction=(), fassign=(), tassign=(), allow=None, either=False, tdtor=()):
        super().__init__(prog)
        self.first, self.then, self.fassign, self.tassign = first, then, fassign, tassign
        self.sanction, self._allow, self.either = sanction, allow, either
        self.first_hits, self.then_hits = {}, {}
        self.tdtor = tdtor

    def allow(self, fn):
        return self._allow(fn) if self._allow else True

    def interesting(self, fn):
        for i, x in enumerate(fn.n):
            if x[0] in ("call", "new") and any(t.quick(x[2]) for t in (*self.first, *self.then)):
                return True
        return any(a.quick(fn) for a in (*self.fassign, *self.tassign))

    def absorbing(self, st):
        return self.either and st == "then"

    def _then(self, fr, st, i):
        self.then_hits[(fr.fn.id, i)] = fr.fn.loc(i)
        return ("then",) if self.either else ("idle",)

    def call(self, fr, st, i, inf):
        for t in self.first:
            if t(self.sym, fr, i, inf):
                self.first_hits[(fr.fn.id, i)] = fr.fn.loc(i)
                return (("first", fr.fn.loc(i)),)
        for t in self.then:
            if t(self.sym, fr, i, inf):
                return self._then(fr, st, i)
        if self.tassign and inf["k"] in ("op", "m") and last(inf["q"]) in ATOMIC:
            s = self.sym.r(fr.fn, fr.fn.n[i][3][0], fr.env)
            for a in self.tassign:
                if a.lhs.search(s):
                    ar = fr.fn.args(i)
                    if a.rhs is None or (ar and a.rhs.search(self.sym.r(fr.fn, ar[0], fr.env))):
                        return self._then(fr, st, i)
        return None

    def assign(self, fr, st, i):
        for a in self.fassign:
            if a(self.sym, fr, i):
                self.first_hits[(fr.fn.id, i)] = fr.fn.loc(i)
                return (("first", fr.fn.loc(i)),)
        for a in self.tassign:
            if a(self.sym, fr, i):
                return self._then(fr, st, i)
        return None

    def dtor(self, fr, st, el):
        if el[0] == "~" and any(t in el[2] for t in self.tdtor):
            return ("idle",)
        return None

    def branch(self, fr, st, form, cond):
        if st[0] == "first" and self.sanction and sanctioned(form, self.sanction):
            return ("idle",)
        return None


def followed(ctx, rule, root, first, then, what, env=None, need_first=True, exc=False, **kw):
    r = Followed(ctx.p, first, then, **kw)
    r.exceptions = exc
    e = Engine(ctx.p, r)
    n, x = e.run(root, "idle", env)
    ctx.count(r)
    inst = f"{root.q}: {what}"
    bad = [s for s in (n | x if exc else n) if s[0] == "first"]
    if need_first and not r.first_hits:
        ctx.ob(rule, inst, False, root.loc(), "the triggering action does not occur below this function any more")
        return False
    if bad:
        ctx.ob(rule, inst, False, bad[0][1], f"after the action here, an exit of {root.q} is reached without the required one; {e.path(root, bad[0])}")
        return False
    ctx.ob(rule, inst, True, root.loc(), f"{len(r.first_hits)} triggering site(s), {len(r.then_hits)} following site(s)")
    return True


def class_entries(p, cls, ids):
    """methods of cls (and nested functions' hosts) from which some function in ids is reachable through methods of cls, that are
    entered from outside the class"""
    inside = {f.id for f in p.fns.values() if f.cls == cls}
    reach = {i for i in ids if i in inside}
    w = list(reach)
    while w:
        x = w.pop()
        for c in p.callers.get(x, ()):
            f = p.fns[c]
            while f.kind == "lambda" and f.parent_fn in p.fns:
                f = p.fns[f.parent_fn]
            if f.id in inside and f.id not in reach:
                reach.add(f.id)
                w.append(f.id)
    out = []
    for i in sorted(reach):
        f = p.fns[i]
        cs = p.callers.get(i, set())
        if f.d.get("acc") == "public" or f.kind in ("ctor", "dtor") or not cs or any(p.fns[c].cls != cls for c in cs):
            out.append(f)
    return out


class FailTag(Rule):
    """Follows the result of one call: which branch polarities on it reach a normal exit of the function."""

    def __init__(self, prog, fn, node, text, var):
        super().__init__(prog)
        self.fn, self.node, self.text, self.var = fn, node, text, var

    def interesting(self, fn):
        return False

    nonempty = False

    def call(self, fr, st, i, inf):
        if i == self.node:
            return (("R",),)
        return None

    def branch(self, fr, st, form, cond):
        if st == "0":
            return None
        for a, pol in atoms(form):
            if self.text in a or (self.var and self.var in a):
                return (("T", a, pol),)
        return None


def result_checked(prog, fn, i):
    """(ok, why): is the result of call node i tested so that one outcome never reaches a normal exit?"""
    sym = Sym(prog)
    par = fn.parent
    j = i
    var = None
    while j in par:
        k = par[j]
        x = fn.n[k]
        if x[0] == "call":
            q = x[2]["q"]
            if q in ("eckit::SysCall", "eckit::ThrCall", "eckit::Panic", "eckit::PanicNoLog"):
                return True, "SYSCALL"
            if q == "eckit::Assert":
                return True, "assert"
            if x[2].get("r"):
                # handed to a checking helper of the repository
                return True, f"passed to {q}"
            return True, f"passed to {q}"
        if x[0] == "assign":
            t = x[3][0]
            var = sym.r(fn, t)
            if fn.n[t][0] == "ref":
                var = "local:" + prog.lname(fn, fn.n[t][2][2], fn.n[t][2][0])
            for a in fn.ancestors(k):
                if fn.n[a][0] in ("block", "if", "while", "for", "do", "switch"):
                    break
                if fn.n[a][0] == "call" and fn.n[a][2]["q"] in ("eckit::SysCall", "eckit::ThrCall") and fn.args(a) and k in set(fn.walk(fn.args(a)[0])):
                    return True, "SYSCALL"
            break
        if x[0] == "var":
            var = "local:" + prog.lname(fn, x[2]["d"], x[2]["n"])
            break
        if x[0] in ("block", "case", "default"):
            return False, "result discarded"
        if x[0] == "cast" and x[2][1] == "void":
            return False, "result cast to void"
        if x[0] in ("if", "while", "for", "do", "forrange", "switch"):
            if x[3] and x[3][0] == j or x[0] == "for" and len(x[3]) > 1 and x[3][1] == j:
                break
            return False, "result discarded"
        if x[0] == "return":
            return True, "returned"
        if x[0] == "decl":
            break
        if x[0] == "throw":
            return True, "thrown"
        if x[0] == "bin" and x[2] == ",":
            if x[3][0] == j:
                return False, "result discarded"
        j = k
    text = sym.r(fn, i)
    r = FailTag(prog, fn, i, text, var)
    e = Engine(prog, r)
    n, _ = e.run(fn, "0")
    tags = {s for s in n if s != "0"}
    if ("R",) in tags:
        if var is not None:
            # returned to the caller?
            for a, x in enumerate(fn.n):
                if x[0] == "return" and x[3] and var in sym.r(fn, x[3][0]):
                    return True, "returned"
            # checked by SYSCALL afterwards
            for a, x in enumerate(fn.n):
                if x[0] == "call" and x[2]["q"] in ("eckit::SysCall", "eckit::Assert") and x[3] and var in sym.r(fn, x[3][0]):
                    return True, "SYSCALL"
        return False, "a normal exit is reached without testing the result"
    bytext = {}
    for s in tags:
        bytext.setdefault(s[1], set()).add(s[2])
    for t, pols in bytext.items():
        if len(pols) == 2:
            return False, f"both outcomes of the test `{t}` reach a normal exit"
    return True, "tested"


def par(f, k):
    """regex for the k-th parameter of f"""
    return re.escape("param:" + f.params[k][0])


class Tally(Rule):
    """how often does an event of `targets` happen on a path? (capped at hi + 1)"""
    nonempty = True

    def __init__(self, prog, targets, hi, assigns=(), sanction=(), allow=None):
        super().__init__(prog)
        self.targets, self.hi, self.assigns, self.sanction, self._allow = targets, hi, assigns, sanction, allow
        self.hits = {}

    def allow(self, fn):
        return self._allow(fn) if self._allow else True

    def interesting(self, fn):
        for i, x in enumerate(fn.n):
            if x[0] in ("call", "new") and any(t.quick(x[2]) for t in self.targets):
                return True
        return any(a.quick(fn) for a in self.assigns)

    def absorbing(self, st):
        return st == "exempt"

    def _inc(self, fr, st, i):
        self.hits[(fr.fn.id, i)] = fr.fn.loc(i)
        return (min(st + 1, self.hi + 1),)

    def call(self, fr, st, i, inf):
        if st == "exempt":
            return None
        for t in self.targets:
            if t(self.sym, fr, i, inf):
                return self._inc(fr, st, i)
        if self.assigns and inf["k"] in ("op", "m") and last(inf["q"]) in ATOMIC and fr.fn.n[i][3]:
            s = self.sym.r(fr.fn, fr.fn.n[i][3][0], fr.env)
            if any(a.lhs.search(s) for a in self.assigns):
                return self._inc(fr, st, i)
        return None

    def assign(self, fr, st, i):
        if st != "exempt" and any(a(self.sym, fr, i) for a in self.assigns):
            return self._inc(fr, st, i)
        return None

    def branch(self, fr, st, form, cond):
        if st != "exempt" and self.sanction and sanctioned(form, self.sanction):
            return ("exempt",)
        return None


def tally(ctx, rule, root, targets, what, lo=1, hi=1, env=None, **kw):
    """on every path to a normal exit of root the event happens between lo and hi times"""
    r = Tally(ctx.p, targets, hi, **kw)
    e = Engine(ctx.p, r)
    n, _ = e.run(root, 0, env)
    ctx.count(r)
    inst = f"{root.q}: {what}"
    bad = [s for s in n if s != "exempt" and not lo <= s <= hi]
    if not r.hits and lo:
        ctx.ob(rule, inst, False, root.loc(), "the required action does not occur below this function")
        return False
    if bad:
        b = bad[0]
        ctx.ob(rule, inst, False, root.loc(), f"on some path it happens {'more than ' + str(hi) + ' time(s)' if b > hi else str(b) + ' time(s)'}; "
               f"{e.path(root, b)}; sites {sorted(r.hits.values())[:5]}")
        return False
    ctx.ob(rule, inst, True, root.loc(), f"{len(r.hits)} site(s): {sorted(r.hits.values())[:5]}")
    return True


def expand(sym, f, s, env=None, depth=0, seen=()):
    """the rendering with every local object that is never assigned again replaced by what it was constructed from"""
    def sub(m):
        n = m.group(1)
        if n in seen:
            return m.group(0)
        for g in sym.p.family(f):
            ds = [x for x in g.n if x[0] == "var" and x[2]["n"] == re.sub(r"__\d+$", "", n) and sym.p.lname(g, x[2]["d"], x[2]["n"]) == n]
            if len(ds) != 1 or not ds[0][3]:
                continue
            did = ds[0][2]["d"]
            for x in g.n:
                if x[0] == "assign" or x[0] == "call" and last(x[2]["q"]) == "operator=":
                    k = x[3][0]
                    if g.n[k][0] == "ref" and g.n[k][2][2] == did:
                        return m.group(0)
            t = sym.r(g, ds[0][3][0], env)
            return expand(sym, g, "{" + t + "}", env, depth + 1, seen + (n,)) if depth < 4 and t != m.group(0) else "{" + t + "}"
        return m.group(0)

    return re.sub(r"\blocal:(\w+)", sub, s)


class Flows(Rule):
    """at each event the arguments (and receiver) have the required provenance"""
    exceptions = True

    def __init__(self, prog, pred, args, obj=None, allow=None):
        super().__init__(prog)
        self.pred, self.rx, self._allow = pred, {k: re.compile(v) for k, v in args.items()}, allow
        self.obj = re.compile(obj) if obj else None
        self.hits, self.bad = {}, {}

    def allow(self, fn):
        return self._allow(fn) if self._allow else True

    def interesting(self, fn):
        return any(x[0] in ("call", "new") and self.pred.quick(x[2]) for x in fn.n)

    def call(self, fr, st, i, inf):
        if not self.pred(self.sym, fr, i, inf):
            return None
        f = fr.fn
        self.hits[(f.id, i)] = f.loc(i)
        a = f.args(i)
        for k, rx in self.rx.items():
            s = self.sym.r(f, a[k], fr.env) if k < len(a) else "<absent>"
            if not rx.search(s) and not rx.search(expand(self.sym, f, s, fr.env)):
                self.bad[(f.id, i, k)] = (f.loc(i), f"argument {k} of {inf['q']} is `{s}`, expected /{rx.pattern}/; {fr.chain()}")
        if self.obj:
            o = f.obj(i)
            s = self.sym.r(f, o, fr.env) if o is not None else "<none>"
            if not self.obj.search(s) and not self.obj.search(expand(self.sym, f, s, fr.env)):
                self.bad[(f.id, i, -1)] = (f.loc(i), f"receiver of {inf['q']} is `{s}`, expected /{self.obj.pattern}/; {fr.chain()}")
        return None


def flows(ctx, rule, root, pred, args, what, obj=None, env=None, required=True, allow=None):
    r = Flows(ctx.p, pred, args, obj, allow)
    Engine(ctx.p, r).run(root, "-", env)
    ctx.count(r)
    inst = f"{root.q}: {what}"
    if not r.hits:
        if required:
            ctx.ob(rule, inst, False, root.loc(), "the call does not occur below this function")
        return False
    b = sorted(r.bad.values())
    ctx.ob(rule, inst, not b, b[0][0] if b else sorted(r.hits.values())[0], b[0][1] if b else f"{len(r.hits)} site(s)")
    return not b


class NeverAfter(Rule):
    """after an event of `first`, no event of `then` follows (until an event of `again`)"""

    def __init__(self, prog, first, then, fassign=(), tassign=(), again=(), allow=None, exact_reads=None):
        super().__init__(prog)
        self.first, self.then, self.fassign, self.tassign, self.again, self._allow = first, then, fassign, tassign, again, allow
        self.first_hits, self.then_hits, self.bad = {}, {}, {}

    def allow(self, fn):
        return self._allow(fn) if self._allow else True

    def interesting(self, fn):
        for i, x in enumerate(fn.n):
            if x[0] in ("call", "new") and any(t.quick(x[2]) for t in (*self.first, *self.then, *self.again)):
                return True
        return any(a.quick(fn) for a in (*self.fassign, *self.tassign))

    def call(self, fr, st, i, inf):
        for t in self.again:
            if t(self.sym, fr, i, inf):
                return ("idle",)
        for t in self.then:
            if t(self.sym, fr, i, inf):
                self.then_hits[(fr.fn.id, i)] = fr.fn.loc(i)
                if st == "seen":
                    self.bad[(fr.fn.id, i)] = (fr.fn.loc(i), inf["q"], fr.chain())
                if not any(t2(self.sym, fr, i, inf) for t2 in self.first):
                    return (st,)
        for t in self.first:
            if t(self.sym, fr, i, inf):
                self.first_hits[(fr.fn.id, i)] = fr.fn.loc(i)
                return ("seen",)
        return None

    def assign(self, fr, st, i):
        for a in self.tassign:
            if a(self.sym, fr, i):
                self.then_hits[(fr.fn.id, i)] = fr.fn.loc(i)
                if st == "seen":
                    self.bad[(fr.fn.id, i)] = (fr.fn.loc(i), "assignment", fr.chain())
        for a in self.fassign:
            if a(self.sym, fr, i):
                self.first_hits[(fr.fn.id, i)] = fr.fn.loc(i)
                return ("seen",)
        return None


def never_after(ctx, rule, root, first, then, what, env=None, need_first=True, exc=False, **kw):
    r = NeverAfter(ctx.p, first, then, **kw)
    r.exceptions = exc
    Engine(ctx.p, r).run(root, "idle", env)
    ctx.count(r)
    inst = f"{root.q}: {what}"
    if need_first and not r.first_hits:
        ctx.ob(rule, inst, False, root.loc(), "the first action does not occur below this function")
        return False
    b = sorted(r.bad.values())
    ctx.ob(rule, inst, not b, b[0][0] if b else root.loc(), f"{b[0][1]} follows; {b[0][2]}" if b else f"{len(r.first_hits)} first site(s), {len(r.then_hits)} other site(s)")
    return not b


def guarded(ctx, rule, root, preds, sanction, what, env=None, required=True, **kw):
    """an event of preds happens only on paths on which one of the sanctioned branches was taken (or an event of `first`
    happened)"""
    kw.setdefault("first", [])
    first = kw.pop("first")
    return ordered(ctx, rule, root, first, preds, what, env=env, need_then=required, sanction=sanction, **kw)


def member_values(prog, f, env=None):
    """member -> renderings of what the constructor (initialisers and body) stores in it"""
    sym = Sym(prog)
    out = {}
    for it in f.inits:
        if it[0] == "field" and it[2] is not None and it[2] >= 0:
            out.setdefault(last(it[1]), []).append(sym.r(f, it[2], env))
    for i, x in enumerate(f.n):
        t = None
        if x[0] == "assign" and x[2] == "=":
            t = x[3]
        elif x[0] == "call" and x[2]["k"] in ("op", "m") and last(x[2]["q"]) == "operator=" and len(x[3]) > 1:
            t = x[3][:2]
        if t:
            s = sym.r(f, t[0], env)
            m = re.match(r"^this\.(\w+)$", s)
            if m:
                out.setdefault(m.group(1), []).append(sym.r(f, t[1], env))
    return out


def stores(ctx, rule, f, want, what):
    """the constructor f stores in each member the value of the required provenance (last write counts)"""
    got = member_values(ctx.p, f)
    bad = []
    for m, rx in want.items():
        v = got.get(m)
        if not v:
            bad.append(f"{m} is not set")
        elif not re.search(rx, v[-1]):
            bad.append(f"{m} receives `{v[-1]}`")
    ctx.ob(rule, f"{f.q}({', '.join(x[2] for x in f.params)}): {what}", not bad, f.loc(), "; ".join(bad) or f"{len(want)} member(s)")
    return not bad


class Deferred(Rule):
    """collects the lambdas handed to matching calls, with the environment in which they will run"""

    def __init__(self, prog, pred, allow=None):
        super().__init__(prog)
        self.pred, self._allow, self.found = pred, allow, {}

    def allow(self, fn):
        return self._allow(fn) if self._allow else True

    def interesting(self, fn):
        return any(x[0] in ("call", "new") and self.pred.quick(x[2]) for x in fn.n)

    def call(self, fr, st, i, inf):
        if self.pred(self.sym, fr, i, inf):
            for a in fr.fn.args(i):
                s = self.sym.r(fr.fn, a, fr.env)
                if s.startswith("lambda:") and s[7:] in self.p.fns:
                    g = self.p.fns[s[7:]]
                    self.found[g.id] = (g, self.eng.lambda_env(fr, g))
        return None


def deferred(ctx, root, pred, env=None, allow=None):
    r = Deferred(ctx.p, pred, allow)
    e = Engine(ctx.p, r)
    r.eng = e
    e.run(root, "-", env)
    return [r.found[k] for k in sorted(r.found)]


def bits(p, f, i, must=True, depth=0):
    """bits certainly (must) or possibly (may) set in the integer expression i; None when unknown"""
    x = f.n[i]
    if depth > 20:
        return 0 if must else None
    if x[0] in ("cast", "paren") and x[3]:
        return bits(p, f, x[3][0], must, depth + 1)
    if x[0] == "bin" and x[2] == "|":
        a, b = (bits(p, f, y, must, depth + 1) for y in x[3])
        return None if a is None or b is None else a | b
    if x[0] == "cond":
        a, b = (bits(p, f, y, must, depth + 1) for y in x[3][1:3])
        if a is None or b is None:
            return None
        return a & b if must else a | b
    if x[0] == "ref" and x[2][1] in ("local", "static", "var", "global") or x[0] == "ref" and p.vardef(f, x[2][2]) is not None:
        vd = p.vardef(f, x[2][2])
        if vd is None:
            return 0 if must else None
        g, vi = vd
        v = g.n[vi]
        vals = []
        if v[3]:
            vals.append(bits(p, g, v[3][0], must, depth + 1))
        ors = []
        for fn in [g] + [h for h in p.fns.values() if h.kind == "lambda" and h.parent_fn == g.id]:
            for y in fn.n:
                if y[0] == "assign" and fn.n[y[3][0]][0] == "ref" and fn.n[y[3][0]][2][2] == x[2][2]:
                    b = bits(p, fn, y[3][1], must, depth + 1)
                    if y[2] == "=":
                        vals.append(b)
                    elif y[2] == "|=":
                        ors.append(b)
                    else:
                        return 0 if must else None
        if not vals or any(b is None for b in vals) or any(b is None for b in ors):
            return 0 if must else None
        r = vals[0]
        for b in vals[1:]:
            r = r & b if must else r | b
        if not must:
            for b in ors:
                r |= b
        return r
    s = Sym(p).r(f, i)
    try:
        return int(s)
    except ValueError:
        return 0 if must else None


LOCAL = re.compile(r"^(local|param):\w+$")


class PathFacts(Rule):
    """Tracks, along every path, the last known truth of the conditions matching `track` and which events happened; calls
    `check(outcome, facts)` at the returns of the root and `at` checks at events. Paths with contradictory facts are infeasible."""

    def __init__(self, prog, track, events=(), kills=(), check=None, at=(), aevents=(), allow=None, boolean=True, nonempty=False, cases=None, exclusive=(), follow=None):
        super().__init__(prog)
        self.exclusive, self.follow = exclusive, follow
        self.track = [(t, re.compile(rx)) for t, rx in track.items()]
        self.events, self.kills, self.check, self.at, self.aevents = dict(events), kills, check, at, dict(aevents)
        self._allow, self.boolean, self.nonempty = allow, boolean, nonempty
        self.cases = cases or {}
        self.bad, self.hits, self.returns = {}, {}, 0

    def allow(self, fn):
        return self._allow(fn) if self._allow else True

    def interesting(self, fn):
        if self.follow and self.follow(fn):
            return True
        ps = [p for v in self.events.values() for p in v] + [p for v, _ in self.kills for p in v] + [p for p, _ in self.at]
        for i, x in enumerate(fn.n):
            if x[0] in ("call", "new") and any(t.quick(x[2]) for t in ps if isinstance(t, CallPred)):
                return True
        aps = [p for v in self.aevents.values() for p in v]
        return any(a.quick(fn) for a in aps)

    def add(self, st, pairs):
        d = dict(st)
        for t, v in pairs:
            if t in d and d[t] != v:
                return None
            d[t] = v
            if v and any(t in g and any(d.get(u) for u in g if u != t) for g in self.exclusive):
                return None
        return frozenset(d.items())

    def tags(self, a, pol):
        out = [(t, pol) for t, rx in self.track if rx.search(a)]
        if LOCAL.match(a):
            out.append(("?" + a, pol))
        return out

    def facts(self, form, st=None):
        """what the formula being true says about the tracked conditions, given what is known (None: it cannot be true)"""
        d = dict(st) if st else {}

        def go(f):
            if f[0] == "atom":
                s = self.tags(f[1], f[2])
                return None if any(t in d and d[t] != v for t, v in s) else set(s)
            if f[0] == "and":
                s = set()
                for g in f[1]:
                    r = go(g)
                    if r is None:
                        return None
                    s |= r
                return s
            if f[0] == "or":
                rs = [r for r in (go(g) for g in f[1]) if r is not None]
                return set.intersection(*rs) if rs else None
            if f == ("const", False):
                return None
            return set()

        return go(form)

    def branch(self, fr, st, form, cond):
        f = self.facts(form, st)
        if f is None:
            return ()
        if not f:
            return None
        n = self.add(st, sorted(f))
        return (n,) if n is not None else ()

    def flag(self, fr, st, lhs, fn, rhs):
        """a local truth value is given: forks on what the value implies"""
        k = "?" + lhs
        tags = [t for t, rx in self.track if rx.search(lhs)]
        outs = []
        forms = [(v, self.sym.formula(fn, rhs, fr.env, v)) for v in (True, False)] if rhs is not None else []
        live = [(v, f) for v, f in forms if f != ("const", False)]
        if len(live) == 1 or any(self.facts(f) for _, f in live):
            for v, f in live:
                q = self.facts(f, st)
                n = self.add(st, sorted(q)) if q is not None else None
                if n is None:
                    continue
                d = dict(n)
                for t in tags + [k]:
                    d[t] = v
                outs.append(frozenset(d.items()))
            return tuple(outs)
        d = {t: v for t, v in st if t != k and t not in tags}
        return (frozenset(d.items()),)

    def case(self, fr, st, sw, label):
        if sw is None:
            return None
        s = None
        for t, fnc in self.cases.items():
            v = fnc(self, fr, sw, label)
            if v is not None:
                d = dict(s if s is not None else st)
                if t in d and d[t] != v:
                    return ()
                d[t] = v
                s = frozenset(d.items())
        return (s,) if s is not None else None

    def _do(self, fr, st, i, pred):
        d = dict(st)
        for p, chk in self.at:
            if pred(p):
                self.hits[(fr.fn.id, i)] = fr.fn.loc(i)
                m = chk(d, fr, i)
                if m:
                    self.bad[(fr.fn.id, i, m)] = (fr.fn.loc(i), f"{m}; {fr.chain()}")
        n = None
        for ps, tags in self.kills:
            if any(pred(p) for p in ps):
                n = n or d
                for t in tags:
                    n.pop(t, None)
        for t, ps in list(self.events.items()) + list(self.aevents.items()):
            if any(pred(p) for p in ps):
                self.hits[(fr.fn.id, i)] = fr.fn.loc(i)
                n = n or d
                n[t] = True
        return (frozenset(n.items()),) if n is not None else None

    def call(self, fr, st, i, inf):
        st0 = st
        fl = [k for k, _ in st if k.startswith("?")]
        if fl and re.search(r"(?<!const )bool ?&", str(inf.get("id", ""))):
            for a in fr.fn.args(i):
                y = fr.fn.n[a]
                k = f"?{y[2][1]}:{y[2][0]}" if y[0] == "ref" else ""
                if k in fl:
                    # the callee may give the truth value a new value
                    st = frozenset(x for x in st if x[0] != k and not any(t == x[0] and rx.search(k[1:]) for t, rx in self.track))
        r = self._do(fr, st, i, lambda p: isinstance(p, CallPred) and p(self.sym, fr, i, inf))
        if r is None and self.aevents and inf["k"] in ("op", "m") and last(inf["q"]) in ATOMIC and fr.fn.n[i][3]:
            s = self.sym.r(fr.fn, fr.fn.n[i][3][0], fr.env)
            ar = fr.fn.args(i)
            v = self.sym.r(fr.fn, ar[0], fr.env) if ar else ""
            d = dict(st)
            ch = False
            for t, ps in self.aevents.items():
                if any(isinstance(p, AssignPred) and p.lhs.search(s) and (p.rhs is None or p.rhs.search(v)) for p in ps):
                    d[t] = True
                    ch = True
            if ch:
                return (frozenset(d.items()),)
        if r is None and st is not st0:
            return (st,)
        return r

    def assign(self, fr, st, i):
        x = fr.fn.n[i]
        y = fr.fn.n[x[3][0]]
        sts = (st,)
        if y[0] == "ref" and (y[2][1] == "local" or y[2][1] == "param" and fr.up is None) and y[2][-1] in ("bool", "_Bool"):
            rhs = x[3][1] if x[2] == "=" and len(x[3]) > 1 else None
            sts = self.flag(fr, st, f"{y[2][1]}:{y[2][0]}", fr.fn, rhs)
        out, ch = [], sts != (st,)
        for s in sts:
            r = self._do(fr, s, i, lambda p: isinstance(p, AssignPred) and p(self.sym, fr, i))
            ch = ch or r is not None
            out += list(r) if r is not None else [s]
        return tuple(out) if ch else None

    def element(self, fr, st, i):
        if isinstance(i, int) and fr.fn.n[i][0] == "var":
            x = fr.fn.n[i]
            if x[2]["t"] == "bool":
                s = self.flag(fr, st, "local:" + self.sym.p.lname(fr.fn, x[2]["d"], x[2]["n"]), fr.fn, x[3][0] if x[3] else None)
                return s if s != (st,) else None
            return None
        if not isinstance(i, int) or fr.up is not None or self.check is None:
            return None
        x = fr.fn.n[i]
        if x[0] != "return":
            return None
        self.returns += 1
        if not x[3] or not self.boolean:
            txt = self.sym.r(fr.fn, x[3][0], fr.env) if x[3] else ""
            m = self.check(txt, dict(st))
            if m:
                self.bad[(fr.fn.id, i, m)] = (fr.fn.loc(i), m)
            return None
        for o in (True, False):
            form = self.sym.formula(fr.fn, x[3][0], fr.env, o)
            if form == ("const", False):
                continue
            q = self.facts(form, st)
            n = self.add(st, sorted(q)) if q is not None else None
            if n is None:
                continue
            m = self.check(o, dict(n))
            if m:
                self.bad[(fr.fn.id, i, m)] = (fr.fn.loc(i), m)
        return None


def pathfacts(ctx, rule, root, track, what, env=None, need_hits=False, **kw):
    exc = kw.pop("exc", False)
    r = PathFacts(ctx.p, track, **kw)
    r.exceptions = exc
    e = Engine(ctx.p, r)
    n, _ = e.run(root, frozenset(), env)
    ctx.count(r)
    inst = f"{root.q}: {what}"
    if need_hits and not r.hits or (r.check and not r.returns and root.d.get("ret") != "void"):
        ctx.ob(rule, inst, False, root.loc(), "the action does not occur below this function")
        return False
    b = sorted(r.bad.values())
    if r.check and root.d.get("ret") == "void":
        for s in n:
            m = r.check("", dict(s))
            if m:
                b.append((root.loc(), m + "; " + e.path(root, s)))
    ctx.ob(rule, inst, not b, b[0][0] if b else root.loc(), b[0][1] if b else f"{r.returns} return state(s), {len(r.hits)} event site(s)")
    return not b


def case_enums(fr, label):
    """enumerators of a case label and of the labels that fall into it; None for default"""
    fn = fr.fn
    out = []
    k = label
    while k is not None and k >= 0 and fn.n[k][0] in ("case", "default"):
        if fn.n[k][0] == "default":
            return None
        for c in fn.n[k][3]:
            y = fn.n[c]
            while y[0] == "cast":
                y = fn.n[y[3][0]]
            if y[0] == "ref" and y[2][1] == "enum":
                out.append(y[2][2])
            break
        k = None
    return out


def switch_labels(fn, sw):
    """all enumerators named by the case labels of the function"""
    s = set()
    for x in fn.n:
        if x[0] == "case" and x[3]:
            y = fn.n[x[3][0]]
            while y[0] == "cast":
                y = fn.n[y[3][0]]
            if y[0] == "ref" and y[2][1] == "enum":
                s.add(y[2][2])
    return s


def on_case(enumerator, rx):
    """fact function for PathFacts.cases: true on the case label of the enumerator, false on others"""
    rx = re.compile(rx)

    def f(rule, fr, sw, label):
        if sw is None or sw < 0 or not rx.search(rule.sym.r(fr.fn, sw, fr.env)):
            return None
        if label is None or label < 0:
            return False if enumerator in switch_labels(fr.fn, sw) else None
        e = case_enums(fr, label)
        if e is None:
            return False if enumerator in switch_labels(fr.fn, sw) else None
        return enumerator in e
    return f


def tagfacts(enum, names, rx):
    """(track, cases) for equality tests of an expression matching rx against enumerators, by if or by switch"""
    tr = {n: rf"^(?=.*{re.escape(enum + '::' + n)}(==|$)).*(?:{rx})" for n in names}
    cs = {n: on_case(enum + "::" + n, rx) for n in names}
    return tr, cs


def codec(p, fn, rx=r"eckit::Stream|operator(<<|>>)$", env=None, allow=None, stream=None):
    """the stream operations (<< and >>, in textual evaluation order) of a function: (node, op, parameter type, rendered operand)"""
    sym = Sym(p)
    out = []
    for b, i in order_calls(fn):
        inf = fn.n[i][2]
        l = last(inf["q"])
        if l not in ("operator<<", "operator>>"):
            continue
        sg = inf["id"]
        if "Stream &" not in sg and not inf["q"].startswith("eckit::Stream::"):
            continue
        a = fn.n[i][3]
        if len(a) < 2:
            continue
        pt = sg[sg.index("(") + 1:sg.rindex(")")]
        if "eckit::Stream &," in pt:
            pt = pt.split("eckit::Stream &,", 1)[1]
        out.append((i, l[8:], pt, sym.r(fn, a[1], env)))
    return out


def order_calls(fn):
    """call nodes in evaluation order of the CFG (blocks in reverse post order)"""
    bl = fn.blocks
    if not bl:
        return [(0, i) for i, x in enumerate(fn.n) if x[0] == "call"]
    seen, post = set(), []
    stack = [(fn.cfg["entry"], iter(bl[fn.cfg["entry"]][1]))]
    seen.add(fn.cfg["entry"])
    while stack:
        b, it = stack[-1]
        for t in it:
            if t >= 0 and t not in seen:
                seen.add(t)
                stack.append((t, iter(bl[t][1])))
                break
        else:
            post.append(b)
            stack.pop()
    out = []
    for b in reversed(post):
        for e in bl[b][0]:
            if isinstance(e, int) and fn.n[e][0] == "call":
                out.append((b, e))
    return out


# calls that change stored data (leaves of the call graph)
MUTATORS = [
    CallPred(r"^eckit::(Local)?PathName::(unlink|rmdir|rename|mkdir|touch|link)$"),
    CallPred(r"^(write|pwrite|rename|unlink|rmdir|mkdir|mkfifo|fwrite|truncate|ftruncate|link|symlink|chmod|flock|fputs|fprintf|aio_write)$"),
    CallPred(r"^daos_(array_(create|write|destroy|set_size|punch)|cont_(create_with_label|create|destroy)|kv_(put|remove|destroy)|obj_punch)$"),
    CallPred(r"^eckit::BTree::(set|flush|sync|flock)$"),
    CallPred(r"^eckit::DataHandle::(openForWrite|openForAppend)$"),
    CallPred(r"^eckit::DataHandle::(copyTo|saveInto)$", args={0: r"FileHandle\("}),
    CallPred(r"^fopen$", args={1: r'"[^"]*[wa+]'}),
]


class DeepFlows(Flows):
    """like Flows, and follows functions handed to other code (captured variables keep their provenance)"""

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.found = {}

    def interesting(self, fn):
        return super().interesting(fn) or any(x[0] == "lambda" for x in fn.n)

    def call(self, fr, st, i, inf):
        for a in fr.fn.args(i):
            s = self.sym.r(fr.fn, a, fr.env)
            if s.startswith("lambda:") and s[7:] in self.p.fns:
                g = self.p.fns[s[7:]]
                env = self.eng.lambda_env(fr, g)
                self.found.setdefault((g.id, str(sorted(env.items(), key=str))), (g, env))
        return super().call(fr, st, i, inf)


def deepflows(ctx, rule, root, pred, args, what, obj=None, env=None, required=True, allow=None):
    """as flows, also through functions handed to worker threads and callbacks"""
    work, done, seen = [(root, env)], set(), {}
    again = lambda g: g.id != root.id and (allow is None or allow(g))  # the root is not entered again (virtual calls on another object)
    hits, bad = {}, {}
    while work:
        f, en = work.pop()
        r = DeepFlows(ctx.p, pred, args, obj, again)
        e = Engine(ctx.p, r)
        r.eng = e
        e.run(f, "-", en)
        ctx.count(r)
        hits.update(r.hits)
        bad.update(r.bad)
        for k, v in r.found.items():
            if k not in done and seen.get(k[0], 0) < 8:
                done.add(k)
                seen[k[0]] = seen.get(k[0], 0) + 1
                work.append(v)
    inst = f"{root.q}: {what}"
    if not hits:
        if required:
            ctx.ob(rule, inst, False, root.loc(), "the call does not occur below this function")
        return False
    b = sorted(bad.values())
    ctx.ob(rule, inst, not b, b[0][0] if b else sorted(hits.values())[0], b[0][1] if b else f"{len(hits)} site(s)")
    return not b


def member_of(p, cls, k, nparams=None):
    """name of the member in which the constructors of cls keep their k-th parameter"""
    for f in sorted(p.fns.values(), key=lambda g: g.id):
        if f.cls == cls and f.kind == "ctor" and len(f.params) > k and (nparams is None or len(f.params) == nparams):
            want = "param:" + f.params[k][0]
            for m, v in member_values(p, f).items():
                if v[-1] == want or v[-1] == f"std::move({want})":
                    return m
    return None


def in_order(ctx, rule, f, container, what):
    """every indexed access to the container (rendered name, regex) made by f is at a counter that starts at zero and grows by
    one, and no iterator into it is moved backwards: the elements are visited from first to last"""
    sym = Sym(ctx.p)
    bad, n = [], 0
    rx = re.compile(container)
    for g in [f] + [h for h in ctx.p.fns.values() if h.kind == "lambda" and f in ctx.p.family(h)]:
        for i, inf in g.calls():
            if last(inf["q"]) not in ("operator[]", "at") or not g.args(i):
                continue
            o = g.obj(i)
            a = g.args(i)
            if o is None and len(a) == 2:
                o, a = a[0], a[1:]
            if o is None or not rx.search(sym.r(g, o)):
                continue
            n += 1
            why = counter(ctx.p, g, a[0])
            if why:
                bad.append((g.loc(i), why))
        for i, x in enumerate(g.n):
            if x[0] == "assign" and x[2] in ("--", "p--", "-=") or x[0] == "un" and x[2] in ("--", "p--"):
                if re.search(rf"^(iter|end)\(({container})", sym.r(g, x[3][0])):
                    bad.append((g.loc(i), "iterator moved backwards"))
    ctx.ob(rule, f"{f.q}: {what}", not bad, bad[0][0] if bad else f.loc(), bad[0][1] if bad else f"{n} indexed access(es)")


def counter(p, g, i):
    """None if the expression is a variable that starts at zero and only ever grows by one; else what it is"""
    sym = Sym(p)
    while g.n[i][0] in ("cast", "paren"):
        i = g.n[i][3][0]
    x = g.n[i]
    if x[0] in ("assign", "un") and x[2] == "p++":
        i = x[3][0]
        x = g.n[i]
    if x[0] != "ref" or x[2][1] not in ("local", "param"):
        return f"element at {sym.r(g, i)}"
    did = x[2][2]
    init = None
    for h in p.family(g):
        for j, y in enumerate(h.n):
            if y[0] == "var" and y[2]["d"] == did:
                init = sym.r(h, y[3][0]) if y[3] else None
            if y[0] in ("assign", "un") and y[3]:
                k = y[3][0]
                while h.n[k][0] == "cast":
                    k = h.n[k][3][0]
                if h.n[k][0] == "ref" and h.n[k][2][2] == did:
                    if y[2] in ("++", "p++") or y[2] == "+=" and sym.r(h, y[3][1]) == "1":
                        continue
                    if y[2] == "=" and sym.r(h, y[3][1]) == "0":
                        init = "0"
                        continue
                    return f"counter changed by {y[2]} at {h.loc(j)}"
    return None if init in ("0", "{0}") else f"counter starts at {init}"


def parts(sym, f, i, env=None, depth=0):
    """rendered components of a pair/tuple expression (through conversions, temporaries and locals defined once)"""
    while f.n[i][0] in ("cast", "paren"):
        i = f.n[i][3][0]
    x = f.n[i]
    if depth < 6 and x[0] in ("new", "call", "init"):
        a = f.args(i)
        if x[0] != "call" or last(x[2]["q"]) in ("make_pair", "make_tuple", "pair", "tuple", "move", "forward"):
            if len(a) == 1:
                return parts(sym, f, a[0], env, depth + 1)
            if len(a) >= 2:
                return [sym.r(f, k, env) for k in a]
    if depth < 6 and x[0] == "ref" and x[2][1] == "local":
        d = [y for y in f.n if y[0] == "var" and y[2]["d"] == x[2][2] and y[3]]
        if len(d) == 1:
            return parts(sym, f, d[0][3][0], env, depth + 1)
    return [sym.r(f, i, env)]


def below(p, f, own=lambda g: True):
    """f, its lambdas and the functions it calls (transitively) that `own` admits"""
    out, todo = [], [f]
    while todo:
        g = todo.pop()
        if g in out:
            continue
        out.append(g)
        todo += [h for h in p.lambdas_of(g) if own(h)]
        todo += [p.fns[h] for h in p.callees(g) if h in p.fns and own(p.fns[h])]
    return out


LOOPKINDS = ("for", "forrange", "while", "do")


def loop_of(f, i):
    for a in f.ancestors(i):
        if f.n[a][0] in LOOPKINDS:
            return a
    return None


def loops_around(p, fns, preds, sym=None):
    """{(function id, loop node)}: the innermost loops in `fns` whose body reaches one of the calls, possibly through the
    functions among `fns` it calls"""
    out, seen = set(), set()
    todo = []
    for f in fns:
        for i, inf in f.calls():
            if any(q.quick(inf) for q in preds):
                todo.append((f, i))
    while todo:
        f, i = todo.pop()
        l = loop_of(f, i)
        if l is not None:
            out.add((f.id, l))
        elif f.id not in seen:
            seen.add(f.id)
            for g in fns:
                for j, inf in g.calls():
                    if any(t.id == f.id for t in p.targets(inf)):
                        todo.append((g, j))
    return out
