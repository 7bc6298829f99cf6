"""Every acquisition of a lock is found (scoped guards), together with the locks that some caller may hold at that point (a may-held
fixpoint over all calls, virtual ones included). The orders in which locks are taken form a graph that must have no cycle; a lock that is not
recursive is not taken again by its holder; and nobody waits for another thread while holding a lock that thread may need."""
import re

from vt.locks import TOP, Locks, last

TECHNIQUE = "lock-order graph from an interprocedural may-held analysis (cycle freedom), re-acquisition check, and wait-for edges between blocking calls and the locks the awaited threads acquire"
ASSUMPTIONS = ["locks are told apart by the class and name of the mutex, not by object; calls through std::function are not followed",
               "eckit::Mutex is recursive", "guards are scoped objects; an object that is being destroyed is not used by other threads"]
FLOORS = {"order": 40, "reacquire": 60, "wait": 4}

WAIT = re.compile(r"^std::(thread::join|(__basic_future|future|shared_future)\b.*(::get|::wait)|condition_variable(_any)?::wait)$")
SPAWN = re.compile(r"^std::(thread|jthread|async)\b")


def recursive(f, v):
    t = f.n[v][2]["t"]
    return "recursive" in t or "eckit::Mutex" in t or "StaticMutex" in t or "SharedMemArray" in t or "Fam" in t


def names(q):
    return q.split("|")


def part(f):
    """threads of one part of the system wake each other"""
    for d in ("fdb5/remote/client/", "fdb5/remote/server/"):
        if f.file.startswith(d):
            return d
    return f.file


def run(ctx):
    p = ctx.p
    L = Locks(p)
    may = L.may()
    fns = [f for f in p.fns.values() if not f.file.startswith("fdb5/tools/")]
    edges, self_bad, n = {}, [], 0
    for f in fns:
        for v, ms, _ in L.guards(f):
            if not re.search(r"[Mm]utex", f.n[v][2]["t"]):
                continue
            rec = recursive(f, v)
            here = set(may[f.id]) | L.local(f, v)
            must = L.held(f, v, own=False)
            must = set() if must is TOP else must
            again = []
            for m in ms:
                for b, q0 in m:
                    for q in names(q0):
                        if rec and any(h == q0 for _, h in must):
                            continue        # already ours: taking it again waits for nobody
                        for b1, q1 in here:
                            for h in names(q1):
                                if h != q:
                                    edges.setdefault((h, q), []).append((f, v, (b1, q1)))
                                elif not rec and len(m) == 1 and b1 == b and b1 != "*":
                                    again.append((b1, q1))
            ctx.ob("reacquire", f"{p.family(f)[-1].q} takes {sorted({q for m in ms for _, q in m})} only when it does not hold it", not again, f.loc(v), f"already held on the path {L.chain(f, again[0])}" if again else "")
    # one guard object over several mutexes (scoped_lock) orders them itself
    succ = {}
    for a, b in edges:
        succ.setdefault(a, set()).add(b)

    def reach(a, b):
        seen, todo, prev = {a}, [a], {}
        while todo:
            x = todo.pop()
            if x == b:
                path = [b]
                while path[-1] in prev:
                    path.append(prev[path[-1]])
                return path[::-1]
            for y in succ.get(x, ()):
                if y not in seen:
                    seen.add(y)
                    prev[y] = x
                    todo.append(y)
        return None

    for (a, b), ws in sorted(edges.items()):
        back = reach(b, a)
        f, v, place = ws[0]
        d = ""
        if back:
            g, u, pl = edges[(back[0], back[1])][0]
            d = f"{a} held ({' <- '.join(L.chain(f, place)) or 'same function'}) when {b} is taken; the other order at {g.loc(u)} in {p.family(g)[-1].q} ({' > '.join(back)})"
        ctx.ob("order", f"{b} is taken after {a}, never the other way round", not back, f.loc(v), d)
    # waiting for another thread
    bodies = {}
    for f in fns:
        for i, x in enumerate(f.n):
            if x[0] in ("call", "new") and SPAWN.match(x[2]["q"]):
                for c in f.walk(i):
                    if f.n[c][0] == "lambda":
                        for g in p.lambdas_of(f):
                            if L.lambda_site(g) and L.lambda_site(g)[1] == c:
                                bodies.setdefault(part(f), []).append(g)
    takes = {}

    def acquired(root):
        if root.id not in takes:
            out = set()
            seen, todo = {root.id}, [root]
            while todo:
                g = todo.pop()
                for v, ms, _ in L.guards(g):
                    out |= {q for m in ms for _, q0 in m for q in names(q0)}
                nxt = [t for x in g.n if x[0] in ("call", "new") for t in p.targets(x[2])]
                nxt += [k for k in p.lambdas_of(g) if (L.lambda_site(k) or (0, 0, True))[2]]
                for t in nxt:
                    if t.id not in seen:
                        seen.add(t.id)
                        todo.append(t)
            takes[root.id] = out
        return takes[root.id]

    for f in fns:
        for i, x in enumerate(f.n):
            if x[0] != "call" or not WAIT.match(x[2]["q"]) or "daos" in f.file:
                continue
            home = p.family(f)[-1]
            held = {q for q in set(may[f.id]) | L.local(f, i)}
            bad = []
            for b in bodies.get(part(f), []):
                got = acquired(b)
                for pl in held:
                    if set(names(pl[1])) & got and not dying(L, f, i, pl):
                        bad.append(f"{pl[1]} is held ({' <- '.join(L.chain(f, pl)) or 'here'}) and the thread started at {b.loc()} may need it")
            ctx.ob("wait", f"{home.q} waits ({last(x[2]['q'])}) without a lock the awaited thread may need", not bad, f.loc(i), "; ".join(bad[:2]) if bad else f"may hold {sorted(q for _, q in held)}")
    # a thread that distributes answers does not itself wait for one
    for f in fns:
        for i, x in enumerate(f.n):
            if x[0] == "call" and WAIT.match(x[2]["q"]) and not x[2]["q"].startswith("std::condition"):
                for b in bodies.get(part(f), []):
                    if not re.search(r"listening\w*ThreadLoop", " ".join(y[2]["q"] for y in b.n if y[0] == "call")) or part(f) != "fdb5/remote/client/":
                        continue
                    path = hit(p, L, b, f)
                    ctx.ob("wait", f"the listening thread started at {p.family(b)[-1].q} does not run into {p.family(f)[-1].q}: {last(x[2]['q'])}", not path, f.loc(i), f"call path {path}" if path else "")


def hit(p, L, root, target):
    seen, todo = {root.id: None}, [root]
    while todo:
        g = todo.pop(0)
        if g.id == target.id:
            out = []
            k = g.id
            while k is not None:
                out.append(p.family(p.fns[k])[-1].q)
                k = seen[k]
            return " > ".join(out[::-1])
        nxt = [t for x in g.n if x[0] in ("call", "new") for t in p.targets(x[2])] + [k for k in p.lambdas_of(g) if (L.lambda_site(k) or (0, 0, True))[2]]
        for t in nxt:
            if t.id not in seen:
                seen[t.id] = g.id
                todo.append(t)
    return None


def dying(L, f, i, place):
    """the lock belongs to an object whose destructor is running"""
    m = L.may()
    g, k, seen = f, place, set()
    while g.id not in seen:
        seen.add(g.id)
        at = [q for q in L.local(g, i) if q[1] == k[1]]
        if at:
            return last(g.q) == "<dtor>" and not g.parent_fn and at[0][0] == "this"
        s = m[g.id].get(k)
        if s is None:
            return False
        g, i = L.p.fns[s[0]], s[1]
        k = next((q for q in m[g.id] if q[1] == k[1]), k)
    return False
