"""Dataflow over Python functions: enumerates the paths through a function's syntax tree with local names replaced by what
they were given, helpers of the same module followed, and records calls, yields, assignments and conditions in order."""
import ast
import copy
import itertools

from . import bind

LIMIT = 4000


class Mod:
    def __init__(self, path):
        self.path = path
        self.tree = ast.parse(bind.text(path))
        self.funcs = {n.name: n for n in self.tree.body if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef))}
        self.classes = {n.name: n for n in self.tree.body if isinstance(n, ast.ClassDef)}

    def methods(self, cls):
        c = self.classes.get(cls)
        return {n.name: n for n in c.body if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) and not any(isinstance(d, ast.Attribute) and d.attr == "setter" for d in n.decorator_list)} if c else {}

    def setters(self, cls):
        return {n.name: n for n in self.classes[cls].body if isinstance(n, ast.FunctionDef) and any(isinstance(d, ast.Attribute) and d.attr == "setter" for d in n.decorator_list)}


def name(s):
    return ast.Name(id=s, ctx=ast.Load())


def call(f, *args):
    return ast.Call(func=name(f), args=list(args), keywords=[])


def s(e):
    return ast.unparse(e) if e is not None else "None"


class Path:
    __slots__ = ("env", "events", "out")

    def __init__(self, env, events=(), out=None):
        self.env, self.events, self.out = env, events, out

    def but(self, **kw):
        return Path(kw.get("env", self.env), kw.get("events", self.events), kw.get("out", self.out))


class Flow:
    def __init__(self, mod, cls=None, opaque=()):
        self.mod, self.cls, self.opaque = mod, cls, set(opaque)
        self.depth = 0

    # expressions: [(expression, events)]
    def seq(self, exprs, env):
        out = [((), ())]
        for e in exprs:
            nxt = []
            for vals, ev in out:
                for v, ev2 in self.ev(e, env):
                    nxt.append((vals + (v,), ev + ev2))
            out = nxt[:LIMIT]
        return out

    def ev(self, e, env):
        if e is None:
            return [(None, ())]
        if isinstance(e, ast.Name):
            return [(copy.deepcopy(env[e.id]) if e.id in env else e, ())]
        if isinstance(e, ast.Constant):
            return [(e, ())]
        if isinstance(e, ast.NamedExpr):
            out = []
            for v, ev in self.ev(e.value, env):
                env[e.target.id] = v
                out.append((v, ev))
            return out
        if isinstance(e, ast.IfExp):
            out = []
            for t, ev in self.ev(e.test, env):
                for pol, br in ((True, e.body), (False, e.orelse)):
                    for v, ev2 in self.ev(br, env):
                        out.append((v, ev + (("cond", *norm(t, pol), e.lineno),) + ev2))
            return out
        if isinstance(e, (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
            inner = dict(env)
            evs = ()
            its, conds = [], []
            for g in e.generators:
                it, ev = self.ev(g.iter, inner)[0]
                evs += ev
                bind_target(g.target, it, inner)
                its.append(it)
                for c in g.ifs:
                    conds.append(self.ev(c, inner)[0][0])
            elt = e.elt if not isinstance(e, ast.DictComp) else ast.Tuple(elts=[e.key, e.value], ctx=ast.Load())
            v, ev = self.ev(elt, inner)[0]
            return [(call("listof" if not conds else "someof", v, *its, *conds), evs + tuple(("loop", s(i), e.lineno) for i in its) + ev)]
        if isinstance(e, ast.Call):
            return self.call(e, env)
        if isinstance(e, ast.Lambda):
            return [(e, ())]
        if isinstance(e, (ast.Yield, ast.YieldFrom, ast.Await)):
            out = []
            for v, ev in self.ev(e.value, env):
                if isinstance(e, ast.Yield):
                    out.append((name("None"), ev + (("yield", s(v), e.lineno),)))
                elif isinstance(e, ast.YieldFrom):
                    gen = any(x[0] == "yield" for x in ev) or s(v) == "None"  # a generator of this module, followed
                    out.append((name("None"), ev if gen else ev + (("yieldall", s(v), e.lineno),)))
                else:
                    out.append((v, ev))
            return out
        # the rest: children in order
        fields = [(f, getattr(e, f)) for f in e._fields if isinstance(getattr(e, f, None), (ast.expr, list))]
        flat = []
        for f, v in fields:
            if isinstance(v, list):
                flat += [(f, i, x) for i, x in enumerate(v) if isinstance(x, ast.expr)]
            else:
                flat.append((f, None, v))
        out = []
        for vals, ev in self.seq([x for _, _, x in flat], env):
            n = copy.copy(e)
            for f, v in fields:
                if isinstance(v, list):
                    setattr(n, f, list(v))
            for (f, i, _), v in zip(flat, vals):
                if i is None:
                    setattr(n, f, v)
                else:
                    getattr(n, f)[i] = v
            out.append((n, ev))
        return out

    def callee(self, func):
        """(function, bound first argument or None, class) of a call that can be followed"""
        if isinstance(func, ast.Name) and func.id in self.mod.funcs and func.id not in self.opaque:
            return self.mod.funcs[func.id], None, self.cls
        if isinstance(func, ast.Attribute) and isinstance(func.value, ast.Name) and func.attr not in self.opaque:
            o = func.value.id
            c = self.cls if o in ("self", "cls") else o if o in self.mod.classes else None
            if c and f"{c}.{func.attr}" not in self.opaque and func.attr in self.mod.methods(c):
                f = self.mod.methods(c)[func.attr]
                deco = {s(d) for d in f.decorator_list}
                if "property" in deco:
                    return None
                return f, (name(o) if "staticmethod" not in deco else None), c
        return None

    def call(self, e, env):
        out = []
        fvals = self.ev(e.func, env) if not isinstance(e.func, ast.Name) else [(env.get(e.func.id, e.func), ())]
        for f, ev0 in fvals:
            for vals, ev in self.seq([a.value if isinstance(a, ast.Starred) else a for a in e.args] + [k.value for k in e.keywords], env):
                args = [ast.Starred(value=v, ctx=ast.Load()) if isinstance(a, ast.Starred) else v for a, v in zip(e.args, vals)]
                kws = [ast.keyword(arg=k.arg, value=v) for k, v in zip(e.keywords, vals[len(args):])]
                if isinstance(f, ast.Name) and f.id in ("next", "iter", "list", "tuple") and len(args) == 1 and not kws:
                    r = call("elem", args[0]) if f.id == "next" else args[0]
                    out.append((r, ev0 + ev))
                    continue
                t = self.callee(f)
                if t and self.depth < 4:
                    out += [(v, ev0 + ev + e2) for v, e2 in self.follow(t, args, kws)]
                    continue
                n = ast.Call(func=f, args=args, keywords=kws)
                out.append((n, ev0 + ev + (("call", s(f), tuple(s(a) for a in args), tuple((k.arg, s(k.value)) for k in kws), e.lineno),)))
        return out[:LIMIT]

    def follow(self, t, args, kws):
        f, first, cls = t
        env = {}
        ps = [a.arg for a in f.args.posonlyargs + f.args.args]
        vals = ([first] if first is not None else []) + list(args)
        for p, v in zip(ps, vals):
            env[p] = v
        for k in kws:
            env[k.arg] = k.value
        defaults = dict(zip(ps[len(ps) - len(f.args.defaults):], f.args.defaults))
        defaults.update({a.arg: d for a, d in zip(f.args.kwonlyargs, f.args.kw_defaults) if d is not None})
        for p, d in defaults.items():
            env.setdefault(p, d)
        old, self.cls = self.cls, cls
        self.depth += 1
        res = self.block(f.body, [Path(env)])
        self.depth -= 1
        self.cls = old
        out = []
        for p in res:
            if p.out and p.out[0] == "raise":
                out.append((name("raised"), p.events + (("raise", p.out[1], f.lineno),)))
            else:
                out.append((p.out[1] if p.out and p.out[0] == "return" and p.out[1] is not None else name("None"), p.events))
        return out

    # statements
    def block(self, stmts, paths):
        for st in stmts:
            nxt = []
            for p in paths:
                if p.out is not None:
                    nxt.append(p)
                else:
                    nxt += [q if not any(x[0] == "raise" for x in q.events[len(p.events):]) or q.out else q.but(out=("raise", "")) for q in self.stmt(st, p)]
            paths = nxt[:LIMIT]
        return paths

    def stmt(self, st, p):
        if isinstance(st, ast.Expr):
            if isinstance(st.value, ast.Constant):
                return [p]
            out = []
            for v, ev in self.ev(st.value, p.env):
                q = Path(dict(p.env), p.events + ev)
                out.append(q)
            return out
        if isinstance(st, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
            if st.value is None:
                return [p]
            out = []
            for v, ev in self.ev(st.value, p.env):
                env = dict(p.env)
                evs = p.events + ev
                for t in st.targets if isinstance(st, ast.Assign) else [st.target]:
                    if isinstance(st, ast.AugAssign):
                        v = ast.BinOp(left=self.ev(t, env)[0][0], op=st.op, right=v)
                    if isinstance(t, ast.Name):
                        env[t.id] = v
                    elif isinstance(t, (ast.Tuple, ast.List)):
                        bind_target(t, v, env, whole=True)
                    else:
                        base = t
                        while isinstance(base, (ast.Attribute, ast.Subscript)):
                            base = base.value
                        if isinstance(base, ast.Name) and isinstance(t, ast.Subscript) and isinstance(env.get(base.id), (ast.Dict, ast.List)):
                            # a container that is filled is known by its name from here on
                            env.pop(base.id)
                        evs += (("assign", s(self.ev(t, env)[0][0]), s(v), st.lineno),)
                out.append(Path(env, evs))
            return out
        if isinstance(st, ast.Return):
            return [p.but(events=p.events + ev, out=("return", v)) for v, ev in self.ev(st.value, dict(p.env))]
        if isinstance(st, ast.Raise):
            return [p.but(events=p.events + ev, out=("raise", s(v))) for v, ev in self.ev(st.exc, dict(p.env))]
        if isinstance(st, ast.If):
            out = []
            for t, ev in self.ev(st.test, p.env):
                for pol, br in ((True, st.body), (False, st.orelse)):
                    c = norm(t, pol)
                    if c[0] in ("True", "False", "None"):
                        if (c[0] == "True") != c[1]:
                            continue
                    if ("cond", c[0], not c[1]) in {x[:3] for x in p.events if x[0] == "cond"}:
                        continue
                    out += self.block(br, [Path(dict(p.env), p.events + ev + (("cond", *c, st.lineno),))])
            return out
        if isinstance(st, (ast.For, ast.AsyncFor)):
            out = []
            for it, ev in self.ev(st.iter, p.env):
                zero = Path(dict(p.env), p.events + ev + (("zero", s(it), st.lineno),))
                env = dict(p.env)
                bind_target(st.target, it, env)
                one = Path(env, p.events + ev + (("loop", s(it), st.lineno),))
                lst = appended(st, p.env)
                made = []
                rest = []
                for q in self.block(st.body, [one]):
                    if q.out and q.out[0] in ("break", "continue"):
                        q = q.but(out=None, events=q.events + ((q.out[0], s(it), st.lineno),))
                    if q.out is None:
                        if lst:
                            q.env[lst[0]] = call("listof", self.ev(lst[1], q.env)[0][0], it)
                            made.append(q.env[lst[0]])
                        q = q.but(events=q.events + (("endloop", s(it), st.lineno),))
                    rest.append(q)
                if len({s(x) for x in made}) == 1:
                    zero.env[lst[0]] = made[0]  # the list of nothing, by the same name
                out += self.block(st.orelse, [zero])
                out += rest
            return out
        if isinstance(st, ast.While):
            out = []
            for t, ev in self.ev(st.test, p.env):
                if s(t) not in ("True", "1"):
                    out.append(Path(dict(p.env), p.events + ev + (("cond", *norm(t, False), st.lineno),)))
                for q in self.block(st.body, [Path(dict(p.env), p.events + ev + (("loop", s(t), st.lineno), ("cond", *norm(t, True), st.lineno)))]):
                    if q.out and q.out[0] in ("break", "continue"):
                        q = q.but(out=None)
                    if q.out is None:
                        q = q.but(events=q.events + (("endloop", s(t), st.lineno),))
                    out.append(q)
            return out
        if isinstance(st, ast.Try):
            out = []
            for q in self.block(st.body, [p]):
                out += self.block(st.orelse, [q]) if q.out is None else [q]
            for h in st.handlers:
                env = dict(p.env)
                if h.name:
                    env.pop(h.name, None)
                out += self.block(h.body, [Path(env, p.events + (("except", s(h.type) if h.type else "", h.lineno),))])
            fin = []
            for q in out:
                if st.finalbody:
                    keep = q.out
                    fin += [r if r.out is not None else r.but(out=keep) for r in self.block(st.finalbody, [q.but(out=None)])]
                else:
                    fin.append(q)
            return fin
        if isinstance(st, (ast.With, ast.AsyncWith)):
            ps = [p]
            for item in st.items:
                nxt = []
                for q in ps:
                    for v, ev in self.ev(item.context_expr, q.env):
                        env = dict(q.env)
                        if isinstance(item.optional_vars, ast.Name):
                            env[item.optional_vars.id] = v
                        nxt.append(Path(env, q.events + ev))
                ps = nxt
            return self.block(st.body, ps)
        if isinstance(st, ast.Break):
            return [p.but(out=("break",))]
        if isinstance(st, ast.Continue):
            return [p.but(out=("continue",))]
        if isinstance(st, ast.Assert):
            return [p.but(events=p.events + ev + (("cond", *norm(t, True), st.lineno),)) for t, ev in self.ev(st.test, p.env)]
        return [p]

    def run(self, f):
        return self.block(f.body, [Path({})])


def norm(t, pol):
    while isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        t, pol = t.operand, not pol
    if isinstance(t, ast.Compare) and len(t.ops) == 1:
        op = t.ops[0]
        if isinstance(op, (ast.IsNot, ast.NotEq, ast.NotIn)):
            new = {ast.IsNot: ast.Is, ast.NotEq: ast.Eq, ast.NotIn: ast.In}[type(op)]()
            return s(ast.Compare(left=t.left, ops=[new], comparators=t.comparators)), not pol
    return s(t), pol


def bind_target(t, it, env, whole=False):
    e = it if whole else call("elem", it)
    if isinstance(t, ast.Name):
        env[t.id] = e
    elif isinstance(t, (ast.Tuple, ast.List)):
        for k, x in enumerate(t.elts):
            v = e.elts[k] if isinstance(e, (ast.Tuple, ast.List)) and len(e.elts) == len(t.elts) else ast.Subscript(value=e, slice=ast.Constant(k), ctx=ast.Load())
            if isinstance(x, ast.Name):
                env[x.id] = v


def appended(st, env):
    """(list, element) if the loop does nothing but append to a list that was empty"""
    if len(st.body) == 1 and isinstance(st.body[0], ast.Expr) and isinstance(st.body[0].value, ast.Call):
        c = st.body[0].value
        if isinstance(c.func, ast.Attribute) and c.func.attr == "append" and isinstance(c.func.value, ast.Name) and len(c.args) == 1:
            v = env.get(c.func.value.id)
            if isinstance(v, ast.List) and not v.elts:
                return c.func.value.id, c.args[0]
    return None
