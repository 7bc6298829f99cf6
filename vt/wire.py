"""Item-level model of serialisation code: for a function that writes to or reads from a stream, the set of item sequences
(labels by wire type, with the member each item comes from or goes to) over all paths of its control-flow graph, every loop
taken at most once per entry. Writers and readers are compared as sets of sequences."""
import re

from .lib import case_enums
from .prog import NORETURN, Env, Sym

PRIM = {"bool": "bool", "char": "char", "unsigned char": "uchar", "int": "int", "unsigned int": "uint", "short": "short",
        "unsigned short": "ushort", "long": "long", "unsigned long": "ulong", "long long": "llong",
        "unsigned long long": "ullong", "float": "float", "double": "double", "const char *": "str", "char *": "str"}
STRS = ("eckit::PathName", "eckit::LocalPathName")
STR = re.compile(r"std::basic_string<char, std::char_traits<char>, std::allocator<char>>")


def ptypes(sig):
    """parameter types of a function id"""
    a = sig.index("(") if not sig.startswith("(") else sig.index("(", 1)
    # the parameter list is the last balanced (...) of the id
    e = sig.rindex(")")
    d = 0
    for k in range(e, -1, -1):
        if sig[k] == ")":
            d += 1
        elif sig[k] == "(":
            d -= 1
            if not d:
                a = k
                break
    out, d, cur = [], 0, ""
    for c in sig[a + 1:e]:
        if c in "<([":
            d += 1
        elif c in ">)]":
            d -= 1
        if c == "," and d == 0:
            out.append(cur)
            cur = ""
        else:
            cur += c
    if cur:
        out.append(cur)
    return out


def bare(t):
    t = t.strip()
    while True:
        u = re.sub(r"^const\s+|\s*(&&|&|\*)$|\s+const$", "", t)
        if u == t:
            return t
        t = u


class Item:
    __slots__ = ("label", "fn", "node", "val", "role", "cls")

    def __init__(self, label, fn, node, val="", role=None, cls=""):
        self.label, self.fn, self.node, self.val, self.role, self.cls = label, fn, node, val, role, cls

    def key(self):
        return (self.label, self.fn.id, self.node)

    def __eq__(self, o):
        return self.key() == o.key() and self.role == o.role

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        return self.label + (f"[{self.role[1]}]" if self.role else "")


class Wire:
    EXTRA = ()  # further node kinds a derived extraction looks at
    MAXW = 4000

    def __init__(self, p, inline=()):
        self.p = p
        self.sym = Sym(p)
        self.readers, self.writers = {}, {}
        self.depth = 0
        self.truncated = set()
        for f in p.fns.values():
            if not f.blocks:
                continue
            pt = [x[2] for x in f.params]
            if f.kind == "ctor" and any(re.match(r"eckit::Stream &$", t) for t in pt) and f.cls:
                self.readers.setdefault(f.cls, []).append(f)
            elif f.name == "encode" and f.cls and pt and pt[0] == "eckit::Stream &":
                self.writers.setdefault(f.cls, []).append(f)
        for f in p.fns.values():
            if f.name == "operator<<" and not f.cls and len(f.params) == 2 and f.params[0][2] == "eckit::Stream &" and f.blocks:
                c = bare(f.params[1][2])
                if c in self.readers and c not in self.writers:
                    self.writers.setdefault(c, []).append(f)
        for f in p.fns.values():
            if f.name == "decode" and f.cls and f.params and f.params[0][2] == "eckit::Stream &" and f.blocks and f.cls not in self.readers:
                self.readers.setdefault(f.cls, []).append(f)
        self.streamable = p.subclasses("eckit::Streamable")
        # a reading constructor that was never written out (inherited): base's
        self.paired = {c for c in self.readers if c in self.writers}

    def isreader(self, cls):
        return any(c in self.paired for c in self.p.superclasses(cls))

    def canon(self, cls):
        """topmost serialisable ancestor (the name under which a value of the class appears)"""
        cls = bare(cls)
        top = cls
        for c in sorted(self.p.superclasses(cls)):
            if c in self.paired and cls in self.p.subclasses(c) and top in self.p.subclasses(c):
                top = c
        return top.rsplit("::", 1)[-1] if top.startswith("fdb5") else top

    def tname(self, t):
        if PRIM.get(re.sub(r" const$", "", t.strip())) == "str":
            return "str"
        t = bare(t)
        if STR.fullmatch(t) or t in STRS:
            return "str"
        if t in PRIM:
            return PRIM[t]
        if t in self.p.classes and (t in self.paired or self.isreader(t)):
            return self.canon(t)
        m = re.match(r"(std::(?:vector|set))<([\w:]+)", t)
        if m:
            return f"{m.group(1)}<{self.tname(m.group(2))}>"
        return t

    # ------------------------------------------------------------------
    def root(self, f, i):
        """the stream operand behind chains of << and >> and casts"""
        while True:
            x = f.n[i]
            if x[0] == "call" and x[2]["q"].rsplit("::", 1)[-1] in ("operator<<", "operator>>") and x[3]:
                i = x[3][0]
            elif x[0] == "cast" and x[3]:
                i = x[3][0]
            else:
                return i

    def static_type(self, f, i):
        x = f.n[i]
        while x[0] in ("cast",) and x[3]:
            i = x[3][0]
            x = f.n[i]
        if x[0] == "call":
            return bare(x[2].get("t", ""))
        if x[0] == "ref" or x[0] == "mem":
            return bare(x[2][3])
        if x[0] == "un" and x[3]:
            return self.static_type(f, x[3][0])
        return ""

    def stream_arg(self, f, i):
        """(stream operand node, other operand nodes) of a call that takes a stream, or None"""
        x = f.n[i]
        inf = x[2]
        q = inf["q"]
        if re.match(r"eckit::Stream::(operator(<<|>>)|startObject|endObject|next|endObjectFound|writeBlob|readBlob|readLargeBlob|writeLargeBlob)$", q):
            return f.obj(i), f.args(i)
        if inf["q"].startswith(("std::function", "std::basic_ostream")):
            return None
        a = f.args(i)
        if re.match(r"std::(make_unique|make_shared|optional::emplace|vector::emplace_back)$", q):
            for k, n in enumerate(a):
                if "Stream" in self.static_type(f, n):
                    return n, a[:k] + a[k + 1:]
            return None
        try:
            pt = ptypes(inf["id"])
        except ValueError:
            return None
        for k, t in enumerate(pt):
            if re.match(r"eckit::(Memory|ResizableMemory|Handle)?Stream &$", t) and k < len(a):
                return a[k], a[:k] + a[k + 1:]
        return None

    # ------------------------------------------------------------------
    def enc_role(self, txt):
        m = re.match(r"^elem\(this\)\.(first|second)$", txt)
        if m:
            return (m.group(1), "")
        m = re.search(r"this\.(\w+)", txt)
        if not m:
            return None
        mem = m.group(1)
        if re.match(r"^this\.\w+\.size\(\)$", txt):
            return ("size", mem)
        if re.match(r"^elem\(this\.\w+\)\.first$", txt):
            return ("first", mem)
        if re.match(r"^elem\(this\.\w+\)\.second$", txt):
            return ("second", mem)
        if re.match(r"^elem\(this\.\w+\)$", txt):
            return ("elem", mem)
        if re.match(r"^this\.\w+$", txt):
            return ("val", mem)
        return ("part", mem)

    def dec_role(self, f, node, i, env):
        """where the item read by call i ends up: a member of the object being built"""
        if node is not None:
            t = self.sym.r(f, node, env)
            m = re.match(r"^this\.(\w+)$", t)
            if m:
                return ("val", m.group(1))
            m = re.match(r"^this\.(\w+)\b", t)
            if m:
                return ("part", m.group(1))
            x = f.n[self.root(f, node)]
            if x[0] == "ref":
                return self.local_role(f, x[2][2], i, env)
            return None
        # value of the call itself
        for a in f.ancestors(i):
            x = f.n[a]
            if x[0] == "var":
                return self.local_role(f, x[2]["d"], i, env)
            if x[0] in ("call", "assign"):
                r = self.use_role(f, a, i, env)
                if r:
                    return r
                if x[0] == "call" and x[2]["q"].rsplit("::", 1)[-1] not in ("move", "forward", "operator->", "operator*"):
                    break
        for e in f.inits:
            if e[0] and isinstance(e[2], int) and i in set(f.walk(e[2])):
                return ("val", e[1].rsplit("::", 1)[-1])
        return None

    def use_role(self, f, a, i, env):
        """role given by statement-level use `a` of the value of node i"""
        x = f.n[a]
        if x[0] == "call" and x[2]["o"]:
            nm = x[2]["q"].rsplit("::", 1)[-1]
            if nm in ("insert", "emplace", "push_back", "emplace_back", "reset", "operator=", "try_emplace", "insert_or_assign", "assign"):
                o = self.sym.r(f, f.obj(a), env)
                m = re.match(r"^this\.(\w+)$", o)
                if m:
                    args = f.args(a)
                    if nm in ("emplace", "try_emplace", "insert_or_assign") and len(args) == 2:
                        for k, g in enumerate(args):
                            if i in set(f.walk(g)):
                                return (("first", "second")[k], m.group(1))
                    return ("elem", m.group(1))
                m = re.match(r"^this\.(\w+)\[", o)
                if m:
                    return ("second", m.group(1))
            if nm == "operator[]":
                o = self.sym.r(f, f.obj(a), env)
                m = re.match(r"^this\.(\w+)$", o)
                if m:
                    return ("first", m.group(1))
        if x[0] == "assign":
            l = self.sym.r(f, x[3][0], env)
            if i in set(f.walk(x[3][1])):
                m = re.match(r"^this\.(\w+)$", l)
                if m:
                    return ("val", m.group(1))
                m = re.match(r"^this\.(\w+)\b", l)
                if m and not i in set(f.walk(x[3][0])):
                    return ("second", m.group(1))
        return None

    def local_role(self, f, decl, i, env):
        """a local that receives an item: the member it is later stored into, when that is unambiguous in the same loop body"""
        uses = [j for j, x in enumerate(f.n) if x[0] == "ref" and x[2][2] == decl]
        loop = self.loop_node(f, i)
        roles = set()
        for u in uses:
            if self.loop_node(f, u) != loop:
                continue
            for a in f.ancestors(u):
                if a == i:
                    break
                r = self.use_role(f, a, u, env)
                if r:
                    roles.add(r)
                    break
                if f.n[a][0] == "call" and f.n[a][2]["q"].rsplit("::", 1)[-1] not in ("move", "forward", "lower"):
                    break
        return next(iter(roles)) if len(roles) == 1 else None

    def loop_node(self, f, i):
        for a in f.ancestors(i):
            if f.n[a][0] in ("for", "while", "do", "forrange"):
                return a
        return None

    # ------------------------------------------------------------------
    def items(self, f, i, S, env, side):
        """the alternatives a call contributes: list of words (tuples of Items), or None when it does not touch the stream"""
        x = f.n[i]
        inf = x[2]
        sa = self.stream_arg(f, i)
        if sa is None:
            return None
        sn, rest = sa
        if self.sym.r(f, self.root(f, sn), env) != S:
            return None
        q = inf["q"]
        nm = q.rsplit("::", 1)[-1]
        if q.startswith("eckit::Stream::") and nm in ("startObject", "endObject", "next", "endObjectFound"):
            return [(Item({"startObject": "{", "endObject": "}", "next": "next"}.get(nm, "more"), f, i),)]
        if nm in ("operator<<", "operator>>"):
            t = ptypes(inf["id"])[-1]
            b = bare(t)
            v = rest[-1]
            enc = nm == "operator<<"
            if b == "eckit::Streamable":
                st = self.static_type(f, v)
                st = re.sub(r"^std::(unique_ptr|shared_ptr)<(const )?([\w:]+).*", r"\3", st)
                return [(Item("obj", f, i, self.sym.r(f, v, env), self.enc_role(self.sym.r(f, v, env)), st if st in self.p.classes else ""),)]
            lab = self.tname(t)
            fn = self.p.fns.get(inf["id"])
            if fn is not None and (b not in self.paired and not self.isreader(b)) and fn.blocks:
                return self.inlined(f, i, fn, rest, S, env, side)
            txt = self.sym.r(f, v, env)
            return [(Item(lab, f, i, txt, self.enc_role(txt) if enc else self.dec_role(f, v, i, env), b),)]
        # obj->encode(stream), X(stream), X::decode(stream), make_unique<X>(stream), Reanimator<X>
        if q == "eckit::Reanimator::reanimate":
            m = re.match(r"eckit::Reanimator<([\w:]+)>", inf["id"])
            return [(Item("obj", f, i, "", self.dec_role(f, None, i, env), m.group(1) if m else ""),)]
        m = re.match(r"std::make_(?:unique|shared)<([\w:]+),", inf["id"]) or re.match(r"std::(?:optional|vector)<([\w:]+)", inf["id"])
        if m:
            return [(Item(self.tname(m.group(1)), f, i, "", self.dec_role(f, None, i, env), m.group(1)),)]
        if inf["id"].startswith("fdb5::Index::encode("):
            return [(Item("IndexBase" + self.version(f, rest, env), f, i, self.sym.r(f, rest[0], env) if rest else "", None, "fdb5::TocIndex"),)]
        if nm == "encode" and x[0] == "call" and inf["o"]:
            cls = inf["id"].rsplit("::encode", 1)[0]
            txt = self.sym.r(f, f.obj(i), env)
            own = txt == (env.get("this", "this") if env else "this")
            if not own and (cls in self.paired or self.isreader(cls)):
                return [(Item(self.canon(cls) + self.version(f, rest, env), f, i, txt, self.enc_role(txt), cls),)]
        if nm == "<ctor>" or (nm == "decode" and inf.get("o")):
            cls = inf["id"].split("::<ctor>")[0] if nm == "<ctor>" else inf["id"].rsplit("::decode", 1)[0]
            if nm == "decode":
                own = self.sym.r(f, f.obj(i), env) == (env.get("this", "this") if env else "this")
            else:
                own = any(not e[0] == "field" and e[2] == i and f.cls in self.p.subclasses(cls) for e in f.inits)
            if not own:
                if cls in self.paired or self.isreader(cls):
                    role = self.dec_role(f, f.obj(i), i, env) if nm == "decode" else self.dec_role(f, None, i, env)
                    return [(Item(self.canon(cls) + self.version(f, rest, env), f, i, "", role, cls),)]
                if cls not in self.p.classes or inf["id"] not in self.p.fns:
                    if re.search(r"(Memory|Handle)Stream$|StreamParser|Sentinel", cls):
                        return None
                    return [(Item(self.tname(cls), f, i, "", self.dec_role(f, None, i, env), cls),)]
        out = []
        for g in self.p.targets(inf, env.get("#this") if env else None):
            if g.blocks:
                out += self.inlined(f, i, g, rest, S, env, side)
        if out:
            return out
        return [(Item("?" + q, f, i),)]

    def version(self, f, rest, env):
        for r in rest:
            t = self.sym.r(f, r, env)
            if re.fullmatch(r"\d+", t):
                return "@" + t
        return ""

    def inlined(self, f, i, g, rest, S, env, side):
        if self.depth > 12:
            return [()]
        e = Env()
        args = f.args(i)
        for k, pr in enumerate(g.params):
            if k < len(args):
                e[pr[1]] = S if self.sym.r(f, self.root(f, args[k]), env) == S else self.sym.r(f, args[k], env)
        o = f.obj(i)
        if o is not None:
            e["this"] = self.sym.r(f, o, env)
        elif g.kind == "ctor":
            e["this"] = "this"
        self.depth += 1
        try:
            return sorted(self.words(g, S, e, side), key=lambda w: [x.label for x in w])
        finally:
            self.depth -= 1

    def decide(self, f, cond, env):
        """truth of a condition on literals (a specialised version number), or None"""
        try:
            fo = self.sym.formula(f, cond, env)
        except Exception:
            return None
        if fo[0] != "atom":
            return None
        m = re.fullmatch(r"(\d+)(<|==)(\d+)", fo[1])
        if not m:
            return None
        a, op, b = int(m.group(1)), m.group(2), int(m.group(3))
        return ((a < b) if op == "<" else (a == b)) == fo[2]

    def words(self, f, S, env, side, start=None, stop=None, notes=None):
        """set of item tuples over all paths from the entry (or block `start`) to the exit (or to a block in `stop`)"""
        bl = f.blocks
        tagged = {}
        if start is None:
            for h, body in f.loops:
                te = bl[h][2]
                if te and te[1] is not None and te[1] >= 0 and any(
                        f.n[j][0] == "call" and f.n[j][2]["q"].endswith("::endObjectFound") for j in f.walk(te[1])):
                    tagged[h] = body
                elif any(isinstance(e, int) and f.n[e][0] == "call" and f.n[e][2]["q"].endswith("::endObjectFound") for e in bl[h][0]):
                    tagged[h] = body
        memo = {}
        # back edges
        entry = f.cfg["entry"] if start is None else start
        back = set()
        for h, body in f.loops:
            for b in body:
                if h in bl[b][1]:
                    back.add((b, h))
        onpath = []

        def go(b, used):
            if stop is not None and b in stop and (b, used) != (start, frozenset()):
                return {()}
            k = (b, used)
            if k in memo:
                return memo[k]
            if k in onpath:
                return set()
            onpath.append(k)
            el, su, te, la, nr = bl[b]
            heads = {()}
            if b in tagged and start is None:
                body = tagged[b]
                it = self.object_item(f, b, body, S, env, side)
                heads = {(it,)}
                su = [s for s in su if s >= 0 and s not in body]
            else:
                dead = False
                for e in el:
                    if not isinstance(e, int):
                        continue
                    x = f.n[e]
                    if x[0] == "throw":
                        dead = True
                        break
                    if x[0] == "call" and x[2]["q"] in NORETURN:
                        dead = True
                        break
                    if x[0] in ("call", "new") or x[0] in self.EXTRA:
                        alt = self.items(f, e, S, env, side)
                        if alt:
                            heads = {h + tuple(a) for h in heads for a in alt}
                            if len(heads) > self.MAXW:
                                self.truncated.add(f.id)
                                heads = set(list(heads)[:self.MAXW])
                if dead or nr:
                    memo[k] = set()
                    onpath.pop()
                    return memo[k]
            live = [s for s in su]
            if b not in tagged and te and te[1] is not None and isinstance(te[1], int) and te[1] >= 0 and len(su) == 2 and te[0] != "SwitchStmt":
                d = self.decide(f, te[1], env)
                if d is not None:
                    live = [su[0] if d else su[1]]
            tails = set()
            if not [s for s in su if s >= 0]:
                tails = {()}
            for s in live:
                if s < 0:
                    continue
                u = used
                if (b, s) in back:
                    if (b, s) in used:
                        continue
                    u = used | {(b, s)}
                # leaving a loop forgets the use of its back edges
                for h, body in f.loops:
                    if b in body and s not in body:
                        u = frozenset(x for x in u if x[1] != h)
                n = ()
                if notes:
                    n = notes(b, s)
                t = go(s, frozenset(u))
                tails |= {n + w for w in t} if n else t
            res = {h + t for h in heads for t in tails}
            if len(res) > self.MAXW:
                self.truncated.add(f.id)
                res = set(sorted(res, key=repr)[:self.MAXW])
            onpath.pop()
            memo[k] = res
            return res

        import sys
        sys.setrecursionlimit(max(sys.getrecursionlimit(), 20000))
        return go(entry, frozenset())

    # --- tagged objects -------------------------------------------------
    def object_item(self, f, h, body, S, env, side):
        """the loop of a tagged reader as one item: tag -> set of label words"""
        tags = {}

        def notes(b, s):
            te = f.blocks[b][2]
            if not te:
                return ()
            if te[0] == "SwitchStmt":
                la = f.blocks[s][3]
                if la is None or la < 0 or f.n[la][0] != "case":
                    return (Item("#default", f, b),)
                out = []
                for c in self.case_names(f, la):
                    out.append(c)
                return (Item("#case " + "|".join(self.tag_of(f, te, out)), f, b),)
            if isinstance(te[1], int) and te[1] >= 0 and len(f.blocks[b][1]) == 2:
                try:
                    fo = self.sym.formula(f, te[1], env)
                except Exception:
                    return ()
                if fo[0] == "atom":
                    m = re.search(r'"(\w*)"', fo[1])
                    if m and "==" in fo[1]:
                        true = f.blocks[b][1][0] == s
                        if true == fo[2]:
                            return (Item("#case " + m.group(1), f, b),)
            return ()

        starts = [s for s in f.blocks[h][1] if s in body]
        for s in starts:
            for w in self.words(f, S, env, side, start=s, stop={h}, notes=notes):
                tag, items, key = None, [], False
                for it in w:
                    if it.label.startswith("#case "):
                        tag = it.label[6:]
                    elif it.label == "#default":
                        tag = None
                    elif it.label in ("next", "more"):
                        pass
                    elif not key and it.label == "str":
                        key = True
                    else:
                        items.append(it)
                if tag is not None:
                    for t in tag.split("|"):
                        tags.setdefault(t, set()).add(tuple(items))
        it = Item("OBJ", f, -1)
        it.val = tags
        return it

    def case_names(self, f, la):
        r = []
        for j in f.walk(f.n[la][3][0]) if f.n[la][3] else []:
            x = f.n[j]
            if x[0] == "ref":
                r.append(x[2][0])
        return r

    def tag_of(self, f, te, enumerators):
        """literals that the function computing the switch value maps to these enumerators"""
        out = []
        if te[1] is None or te[1] < 0:
            return enumerators
        for j in f.walk(te[1]):
            if f.n[j][0] == "call":
                g = self.p.fns.get(f.n[j][2]["id"])
                if g is None:
                    continue
                lits = []
                for i, x in enumerate(g.n):
                    if x[0] in ("lit", "str"):
                        lits.append((i, "lit", x[2]))
                    elif x[0] == "ref":
                        lits.append((i, "ref", x[2][0]))
                order = []
                for i in g.walk():
                    x = g.n[i]
                    if x[0] == "ref":
                        order.append(("ref", x[2][0]))
                    elif x[0] in ("lit", "str", "string"):
                        order.append(("lit", str(x[2])))
                for k, (t, v) in enumerate(order):
                    if t == "ref" and v in enumerators:
                        for t2, v2 in reversed(order[:k]):
                            if t2 == "lit":
                                m = re.search(r"\w+", v2)
                                if m:
                                    out.append(m.group(0))
                                break
        return out or enumerators

    def fold(self, word):
        """a writer's word with each { "tag" items ... } folded into one OBJ item"""
        out, k = [], 0
        word = list(word)
        while k < len(word):
            it = word[k]
            if it.label == "{":
                tags, cur = {}, None
                k += 1
                while k < len(word) and word[k].label != "}":
                    w = word[k]
                    m = re.match(r'^"(\w*)"$', w.val) if w.label == "str" else None
                    if m:
                        cur = m.group(1)
                        tags[cur] = []
                    elif cur is not None:
                        tags[cur].append(w)
                    else:
                        tags.setdefault("", []).append(w)
                    k += 1
                o = Item("OBJ", it.fn, it.node)
                o.val = {t: {tuple(v)} for t, v in tags.items()}
                out.append(o)
            elif it.label in ("next", "more"):
                pass
            else:
                out.append(it)
            k += 1
        return tuple(out)

    # --- streams that are local variables --------------------------------
    def streams(self, f):
        """renderings of the local stream variables of a function"""
        out = []
        for d, i in f.vars.items():
            x = f.n[i][2]
            if re.match(r"^(const )?eckit::(\w*Stream)( &)?$", x["t"]):
                out.append("local:" + self.p.lname(f, d, x["n"]))
        return out

    def enum_notes(self, f, rx, env=None):
        """edge notes naming the enumerator (matching rx) that a switch case or an equality test selects"""
        def notes(b, s):
            te = f.blocks[b][2]
            if not te:
                return ()
            if te[0] == "SwitchStmt":
                la = f.blocks[s][3]
                out = []
                # several case labels may precede one statement
                while la is not None and la >= 0 and f.n[la][0] == "case":
                    out += [c for c in self.case_names(f, la) if re.search(rx, c)]
                    nxt = [c for c in f.n[la][3] if c >= 0 and f.n[c][0] == "case"]
                    la = nxt[0] if nxt else -1
                return tuple(Item("#case " + c, f, b) for c in out[:1])
            if isinstance(te[1], int) and te[1] >= 0 and len(f.blocks[b][1]) == 2:
                try:
                    fo = self.sym.formula(f, te[1], env)
                except Exception:
                    return ()
                if fo[0] == "atom" and "==" in fo[1]:
                    m = re.search(r"(?:^|==|::)(" + rx + r")(?:$|==)", fo[1])
                    if m and (f.blocks[b][1][0] == s) == fo[2]:
                        return (Item("#case " + m.group(1), f, b),)
            return ()
        return notes

    def by_case(self, f, S, env, side, rx):
        """{case enumerator or None: set of words}"""
        out = {}
        for w in self.words(f, S, env, side, notes=self.enum_notes(f, rx, env)):
            cur, tag = [], None
            for it in w:
                if it.label.startswith("#case "):
                    if cur:
                        out.setdefault(tag, set()).add(tuple(cur))
                    cur, tag = [], it.label[6:]
                else:
                    cur.append(it)
            if cur:
                out.setdefault(tag, set()).add(tuple(cur))
        return out
