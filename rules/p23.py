"""P23 failed and short transfers, unchecked system calls, swallowed exceptions"""
import re

from vt.engine import Engine, Rule
from vt.lib import expand, last, result_checked
from vt.prog import Sym, atoms

TECHNIQUE = "error-discipline analysis: every call site of a fallible system or storage call, path-sensitive use of its result, comparison of transferred with requested lengths, delivery of every caught exception"
FLOORS = {"result": 20, "short": 4, "caught": 20}
ASSUMPTIONS = ["eckit's PathName, FileHandle::copyTo and SYSCALL report their own failures by exceptions",
               "handlers that may end quietly: shutting a connection down, the accept loop of a server, candidate databases that cannot be opened while the roots are searched (they are logged and left out)"]
# outcome matters wherever it is called
CALLS = re.compile(r"^(::)?(p?write(v)?|p?read(v)?|fsync|fdatasync|fwrite|fread|fflush|open|open64|creat|fopen|fdopen|rename(at)?|unlink(at)?|rmdir|remove|mkdir|link|symlink|flock|lockf|fcntl|f?truncate|lseek|lseek64|fseek|fseeko|ftello|ftell|setvbuf|[fl]?stat|chmod|posix_memalign|aio_read|aio_return|msync)$|^eckit::(fdatasync|fsync)$")
# only where something was written
CLOSE = re.compile(r"^(::)?(close|fclose)$")
WRITES = re.compile(r"^(::)?(p?write(v)?|fwrite)$")
QUERY = re.compile(r"^(::)?[fl]?stat$")
DAOS = re.compile(r"^(daos_(?!.*(close|fini|disconnect|anchor_|kv_list|prop_|obj_id|unparse|fail|debug)))")
BROAD = re.compile(r"^(\.\.\.|.*\b(std::exception|std::runtime_error|eckit::Exception|eckit::SeriousBug|eckit::WriteError|eckit::ReadError|eckit::AssertionFailed|eckit::FailedSystemCall|eckit::CantOpenFile|eckit::UserError|eckit::TCPException|fdb5::remote::\w*Exception)\b.*)$")
DELIVER = re.compile(r"^(?!eckit::Log::)(.*::)?(error|interrupt|failPendingRequests|set_exception|handleConnectionError|rethrow_exception|throw_with_nested|handleException|current_exception|terminate|abort|exit|_exit)$|::onDatabaseNotFound$|^eckit::(Assert|Panic\w*)$")
# transfers: function -> index of the argument that holds the length
LENGTH = {"write": (2,), "read": (2,), "pwrite": (2,), "pread": (2,), "fwrite": (1, 2), "fread": (1, 2),
          "eckit::net::TCPSocket::write": (1,), "eckit::net::TCPSocket::read": (1,), "eckit::DataHandle::write": (1,), "eckit::MemoryHandle::write": (1,)}


class Full(Rule):
    """how much was transferred is compared with how much was asked for before the function ends normally"""
    nonempty = False

    def __init__(self, p, f, node, lens, text, var):
        super().__init__(p)
        self.f, self.node, self.lens, self.text, self.var = f, node, lens, text, var
        self.bad = {}

    def interesting(self, fn):
        return fn.file == self.f.file

    def relevant(self, fn):
        return fn.file == self.f.file and fn is not self.f and len(fn.n) < 200

    def call(self, fr, st, i, inf):
        if fr.fn is self.f and fr.up is None and i == self.node:
            return ("pending",)
        return None

    def about(self, a):
        return self.text in a or (self.var and re.search(re.escape(self.var) + r"(?!\w)", a))

    def branch(self, fr, st, form, cond):
        if st == "none":
            return None
        for a, pol in atoms(form):
            if not self.about(a):
                continue
            rest = a.replace(self.text, "@")
            if not any(x in rest for x in self.lens):
                if re.fullmatch(r"(@|.*)==0|0==.*", rest) and pol:
                    return ("nothing",)
                continue
            if "==" in rest:
                return ("ok",) if pol else ("short",)
            m = re.match(r"^(.*?)<(.*)$", rest)
            if m and self.here(m[1]):  # less than what was asked for
                return ("short",) if pol else ("ok",)
        if st == "short" and any(re.match(r"^this\.\w+", a) and pol for a, pol in atoms(form)):
            return ("closing",)  # nobody expects the rest any more
        return None

    def here(self, side):
        return "@" in side or self.var and self.var in side

    def element(self, fr, st, i):
        if isinstance(i, int) and fr.fn.n[i][0] == "return" and fr.up is None and st in ("pending", "short", "nothing", "closing"):
            x = fr.fn.n[i]
            v = expand(self.sym, fr.fn, self.sym.r(fr.fn, x[3][0], fr.env), fr.env) if x[3] else ""
            if v in ("false", "0", "nullptr") and st in ("nothing", "closing"):
                return ("told",)
            self.bad[i] = (fr.fn.loc(i), f"returns `{v}` without having compared what was transferred with what was asked for" if st == "pending" else f"returns `{v}` after a short transfer")
        return None


class Handler(Rule):
    """what happens in a handler"""

    nonempty = True

    def __init__(self, p, f, h):
        super().__init__(p)
        self.exceptions = True
        self.f, self.h = f, h
        self.below = set(f.walk(h))
        self.quiet = None

    def interesting(self, fn):
        return any(DELIVER.search(inf["q"]) for _, inf in fn.calls()) or any(x[0] == "throw" for x in fn.n)

    def relevant(self, fn):
        return fn.file == self.f.file and fn is not self.f and super().relevant(fn)

    def call(self, fr, st, i, inf):
        if st == "in" and DELIVER.search(inf["q"]):
            return ("told",)
        return None

    def branch(self, fr, st, form, cond):
        # a choice the configuration makes
        if st == "in" and "EntryVisitMechanism" in fr.fn.file and all(re.match(r"^this\.\w+_$", a) for a, _ in atoms(form)) and atoms(form):
            return ("told",) if self.has_throw else None
        return None

    def element(self, fr, st, i):
        if fr.up is not None or not isinstance(i, int):
            return None
        x = fr.fn.n[i]
        if x[0] == "catch":
            return ("in",) if i == self.h else ("other",)
        if st == "in" and x[0] == "return":
            self.quiet = fr.fn.loc(i)
        return None


def transfer_sites(p, sym):
    """(function, node, renderings of the length) of each transfer, through functions that pass the result on"""
    table = {k: v for k, v in LENGTH.items()}
    wrap = {}
    out = []
    seen = set()
    for _ in range(4):
        new = {}
        for f in p.fns.values():
            if not f.file.startswith("fdb5/") or "/tools/" in f.file or "/daos/" in f.file:
                continue
            for i, inf in f.calls():
                q = inf["q"].lstrip(":")
                ix = table.get(q) if q in table else wrap.get(inf["id"])
                if ix is None or (f.id, i) in seen:
                    continue
                seen.add((f.id, i))
                a = f.args(i)
                lens = [sym.r(f, a[k]) for k in ix if k < len(a)]
                lens = [x for x in lens if not re.fullmatch(r"1", x)]
                if returned(p, sym, f, i):
                    ks = tuple(k for k, pr in enumerate(f.params) if f"param:{pr[0]}" in lens)
                    if ks and f.name not in ("write", "read") or ks and not virtual_handle(p, f):
                        new[f.id] = ks
                    continue
                out.append((f, i, lens))
        wrap.update(new)
        if not new:
            break
    return out


def virtual_handle(p, f):
    return bool(f.cls) and any(b == "eckit::DataHandle" for b in p.superclasses(f.cls))


def decides(f, i):
    """the outcome of a query chooses between return statements: the caller is told"""
    for j in f.ancestors(i):
        x = f.n[j]
        if x[0] == "cond":
            continue
        if x[0] == "return":
            return True
        if x[0] == "if":
            return f.d.get("ret", "void") != "void" and x[3][0] is not None and any(
                f.n[k][0] == "return" and f.n[k][3] for b in x[3][1:] if b is not None for k in f.walk(b))
        if x[0] in ("block", "decl"):
            return False
    return False


def returned(p, sym, f, i):
    t = sym.r(f, i)
    for j in f.ancestors(i):
        if f.n[j][0] == "return":
            return True
        if f.n[j][0] in ("block", "if"):
            break
    ok, why = result_checked(p, f, i)
    if why == "returned":
        return True
    v = var_of(p, sym, f, i)
    if v and why == "SYSCALL":
        return any(x[0] == "return" and x[3] and (sym.r(f, x[3][0]) == v or t == sym.r(f, x[3][0])) for x in f.n)
    return False


def var_of(p, sym, f, i):
    """the variable the result of node i is stored in"""
    for j in f.ancestors(i):
        x = f.n[j]
        if x[0] == "assign":
            t = x[3][0]
            return "local:" + p.lname(f, f.n[t][2][2], f.n[t][2][0]) if f.n[t][0] == "ref" else sym.r(f, t)
        if x[0] == "var":
            return "local:" + p.lname(f, x[2]["d"], x[2]["n"])
        if x[0] in ("block", "if", "call"):
            return None
    return None


def run(ctx):
    p = ctx.p
    sym = Sym(p)
    lib = [f for f in sorted(p.fns.values(), key=lambda g: g.id) if f.file.startswith("fdb5/") and "/tools/" not in f.file and f.blocks]
    writers = {f.cls for f in lib if f.cls and any(WRITES.match(inf["q"]) for _, inf in f.calls())}

    # 1. results
    sites = {}
    for f in lib:
        for i, inf in f.calls():
            q = inf["q"]
            if f.n[i][0] != "call" or q in p.byq or f.kind == "dtor":
                continue
            if not (CALLS.match(q) or DAOS.match(q) or CLOSE.match(q) and f.cls in writers):
                continue
            sites.setdefault((f.id, q.lstrip(":")), []).append((f, i))
    for (fid, q), l in sorted(sites.items()):
        byline = {}
        for f, i in l:
            ok, why = result_checked(p, f, i)
            if not ok and QUERY.match(q) and why.startswith("both outcomes") and decides(f, i):
                ok, why = True, "a query whose outcome decides what is returned"
            byline.setdefault(f.n[i][1], []).append((ok, why, f, i))
        for ln, v in sorted(byline.items()):
            # an assertion repeats its condition in the message
            good = [x for x in v if x[0]]
            ok, why, f, i = good[0] if good else v[0]
            ctx.functions.add(f.id)
            ctx.ob("result", f"{f.q}: the outcome of {q} is checked", ok, f.loc(i), why)

    # 2. short transfers
    done = set()
    for f, i, lens in sorted(transfer_sites(p, sym), key=lambda t: (t[0].id, t[1])):
        if dead(f, i):
            continue
        text = sym.r(f, i)
        var = var_of(p, sym, f, i)
        r = Full(p, f, i, lens, text, var)
        n, _ = Engine(p, r).run(f, "none", None)
        ctx.count(r)
        bad = sorted(r.bad.values())
        left = [s for s in n if s in ("pending", "short", "closing") or s == "nothing" and f.d.get("ret") == "void"] if f.d.get("ret") in ("void", None) else []
        why = bad[0][1] if bad else "an exit is reached with a short transfer, or with one that was not compared with what was asked for" if left else "compared with what was asked for on each path"
        ctx.ob("short", f"{f.q}: a short {last(f.n[i][2]['q'])} is an error", not bad and not left and bool(lens), bad[0][0] if bad else f.loc(i), why)
        ctx.functions.add(f.id)

    # 3. handlers
    for f in lib:
        if re.search(r"(fdb_c\.cc|APIIterator\.h)$", f.file):
            continue  # decided by P21 and P20
        seen = 0
        for i, x in enumerate(f.n):
            if x[0] != "try":
                continue
            inside = set(f.walk(x[3][0])) if x[3] else set()
            for h in x[3][1:]:
                if f.n[h][0] != "catch":
                    continue
                ty = f.n[h][2][0]
                if not BROAD.match(ty) or f.kind == "dtor" or "SeriousBug" in ty and "/daos/" in f.file:
                    continue
                seen += 1
                if best_effort(p, f, inside, h):
                    continue
                r = Handler(p, f, h)
                r.has_throw = any(f.n[j][0] == "throw" for j in r.below)
                n, _ = Engine(p, r).run(f, "start", None)
                ctx.count(r)
                if "in" in n and r.quiet is None:
                    r.quiet = f.loc(h)
                ctx.ob("caught", f"{f.q}: what is caught as {ty} is passed on", r.quiet is None, f.loc(h), "thrown on, or handed to whoever waits for it" if r.quiet is None else f"the handler is left at {r.quiet} and nobody is told")
                ctx.functions.add(f.id)


def dead(f, i):
    """part of the message of an assertion"""
    for a in f.ancestors(i):
        if f.n[a][0] == "call" and f.n[a][2]["q"] == "eckit::Assert":
            return True
    return False


def best_effort(p, f, inside, h):
    calls = [(j, inf) for j, inf in f.calls() if j in inside]
    # saying good-bye
    w = [j for j, inf in calls if inf["q"].endswith("Connection::write")]
    if w:
        return all(any(f.n[k][0] == "ref" and re.search(r"Message::(Exit|Stop)$", str(f.n[k][2][2])) for k in f.walk(j)) for j in w)
    # looking for databases
    if re.search(r"Engine\.cc$", f.file) and not any(re.search(r"::(wipe\w*|unlink|rmdir|rename|flush|archive|append\w*)$", inf["q"]) for _, inf in calls):
        return True
    # the accept loop
    if any(re.search(r"::accept$", inf["q"]) for _, inf in calls) or f.file.endswith("FdbServer.cc") and any("fork" in inf["q"] or "startThread" in inf["q"] or "::start" in inf["q"] for _, inf in calls):
        return True
    # connecting: the caller is told by the result
    return False
