"""Facts about the current tree of /repo: run the clang fact dumper over every translation unit of the build
(results cached by content), merge what is defined below /repo/src and load it."""
import concurrent.futures as cf
import fcntl
import hashlib
import json
import marshal
import os
import shlex
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VT_REPO", "/repo")
BUILD = os.environ.get("VT_BUILD", os.path.join(VERIF, "build"))
ROOT = REPO + "/src"
DUMP = os.path.join(VERIF, "build", "factdump")
CM = BUILD + "/cm"
CACHE = BUILD + "/facts"
FORMAT = "3"


class Broken(Exception):
    """The analysis cannot give a verdict (error exit, neither pass nor violation)."""


def sha(path, memo={}):
    try:
        st = os.stat(path)
    except OSError:
        return "missing"
    k = (path, st.st_mtime_ns, st.st_size)
    if k not in memo:
        with open(path, "rb") as f:
            memo[k] = hashlib.sha256(f.read()).hexdigest()
    return memo[k]


def src_listing():
    out = []
    for d, dirs, files in os.walk(ROOT):
        dirs.sort()
        for f in sorted(files):
            if f.endswith((".cc", ".c", ".in", ".h")):
                out.append(os.path.join(d, f))
    return out


def configure():
    """Compilation commands of the build, for the current list of sources."""
    vp = "/opt/vp/cmake/CMakeLists.txt"
    key = hashlib.sha256()
    key.update(FORMAT.encode() + sha(vp).encode() + sha(REPO + "/VERSION").encode())
    for f in src_listing():
        key.update(f.encode())
        if f.endswith(".in"):
            key.update(sha(f).encode())
    key = key.hexdigest()
    stamp = CM + "/stamp.json"
    try:
        with open(stamp) as f:
            s = json.load(f)
        if s["key"] == key:
            return s["cmds"]
    except (OSError, ValueError, KeyError):
        pass
    os.makedirs(CM, exist_ok=True)
    cm_src = "/opt/vp/cmake"
    if REPO != "/repo":
        # analysing a scratch copy: same description with another root
        cm_src = BUILD + "/cmsrc"
        os.makedirs(cm_src, exist_ok=True)
        with open(vp) as f:
            t = f.read().replace("set(REPO /repo)", f"set(REPO {REPO})")
        for x in os.listdir("/opt/vp/cmake"):
            if x != "CMakeLists.txt" and not os.path.exists(cm_src + "/" + x):
                os.symlink("/opt/vp/cmake/" + x, cm_src + "/" + x)
        with open(cm_src + "/CMakeLists.txt", "w") as f:
            f.write(t)
    venv = "/opt/vp/venv"
    site = venv + "/lib/python3.12/site-packages"
    env = dict(os.environ, CC="gcc", CXX="g++", PYTHONDONTWRITEBYTECODE="1")
    r = subprocess.run(
        ["cmake", "-S", cm_src, "-B", CM, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=RelWithDebInfo", f"-DVP_SITE={site}",
         f"-DPython_EXECUTABLE={venv}/bin/python3", "-DFETCHCONTENT_FULLY_DISCONNECTED=ON"],
        stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env)
    if r.returncode != 0:
        raise Broken("cmake configuration failed:\n" + r.stdout[-3000:])
    with open(CM + "/compile_commands.json") as f:
        db = json.load(f)
    cmds = {}
    for e in db:
        p = e["file"]
        if not p.startswith(ROOT + "/") or not p.endswith(".cc"):
            continue
        rel = p[len(ROOT) + 1:]
        if rel.startswith("dummy_daos/"):
            continue
        args = shlex.split(e["command"])[1:]
        keep, skip = [], False
        for a in args:
            if skip:
                skip = False
                continue
            if a in ("-o", "-c", "-MF", "-MT"):
                skip = a != "-c"
                continue
            if a == p or a.startswith(("-W", "-O", "-g", "-flto", "-MD")):
                continue
            keep.append(a)
        keep += ["-w", "-O0", p]
        cmds.setdefault(rel, keep)
    with open(stamp + ".tmp", "w") as f:
        json.dump({"key": key, "cmds": cmds}, f)
    os.rename(stamp + ".tmp", stamp)
    return cmds


def tu_valid(meta, args, tool):
    try:
        with open(meta) as f:
            m = json.load(f)
    except (OSError, ValueError):
        return None
    if m.get("args") != args or m.get("tool") != tool:
        return None
    for p, h in m["deps"].items():
        if sha(p) != h:
            return None
    return m["key"]


def run_tu(rel, args, tool):
    base = CACHE + "/" + rel.replace("/", "__")
    k = tu_valid(base + ".meta", args, tool)
    if k:
        return rel, k, None, False
    tmp = base + f".{os.getpid()}.tmp"
    r = subprocess.run([DUMP, ROOT, tmp, "--", *args], cwd=CM, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0 or not os.path.exists(tmp):
        return rel, None, r.stdout[-3000:], True
    with open(tmp) as f:
        head = f.readline()
    deps = json.loads(head[:head.index('],"functions":') + 1] + "}")["deps"]
    deps = {p: sha(p) for p in deps if p.startswith((REPO + "/", BUILD + "/"))}
    os.rename(tmp, base + ".json")
    key = hashlib.sha256(json.dumps([args, tool, deps], sort_keys=True).encode()).hexdigest()
    with open(tmp, "w") as f:
        json.dump({"args": args, "tool": tool, "deps": deps, "key": key}, f)
    os.rename(tmp, base + ".meta")
    return rel, key, None, True


def merge(keys):
    fns, decls, classes, enums, globs = {}, {}, {}, {}, {}
    for rel in sorted(keys):
        section = None
        with open(CACHE + "/" + rel.replace("/", "__") + ".json") as f:
            for line in f:
                if line.startswith('{"deps":'):
                    section = "functions"
                    continue
                if line.startswith('],"') or line.startswith('],"'):
                    section = line[3:line.index('"', 3)]
                    continue
                # the closing bracket of a section shares the line of its last element
                nxt = None
                body = line.rstrip("\n")
                i = body.rfind('],"')
                if body.endswith('":['):
                    nxt = body[i + 3:-3]
                    body = body[:i]
                elif body.endswith("]}") and section == "globals" and not body.startswith("{"):
                    body = ""
                elif section == "globals" and body.endswith("}]}"):
                    body = body[:-2]
                if body.endswith(","):
                    body = body[:-1]
                if body and body.startswith("{"):
                    if section in ("functions", "decls"):
                        # skip duplicates without parsing
                        j = body.index('","q":')
                        k = body[7:j]
                        d = fns if section == "functions" else decls
                        if k not in d:
                            d[k] = (rel, body)
                    elif section == "classes":
                        j = body.index('","q":')
                        classes.setdefault(body[7:j], body)
                    elif section == "enums":
                        enums.setdefault(body, 1)
                    elif section == "globals":
                        globs.setdefault(body, rel)
                if nxt:
                    section = nxt
    F = {}
    for k, (rel, body) in fns.items():
        o = json.loads(body)
        o["tu"] = rel
        F[o["id"]] = o
    D = {}
    for k, (rel, body) in decls.items():
        o = json.loads(body)
        if o["id"] not in F:
            D[o["id"]] = o
    C = {}
    for body in classes.values():
        o = json.loads(body)
        C[o["id"]] = o
    E = {}
    for body in enums:
        o = json.loads(body)
        E[(o["q"], o["file"], o["line"])] = o
    G = {}
    for body in globs:
        o = json.loads(body)
        G[(o["q"], o["file"], o["line"])] = o
    return {"functions": F, "decls": D, "classes": C, "enums": list(E.values()), "globals": list(G.values())}


def load(verbose=False):
    t0 = time.time()
    os.makedirs(CACHE, exist_ok=True)
    with open(BUILD + "/lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        r = subprocess.run([VERIF + "/analyzer/build.sh"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise Broken("building the fact dumper failed:\n" + r.stdout[-2000:])
        with open(VERIF + "/build/factdump.sha") as f:
            tool = f.read().strip() + FORMAT
        cmds = configure()
        if len(cmds) < 150:
            raise Broken(f"only {len(cmds)} translation units found")
        keys, errs, fresh = {}, [], 0
        order = sorted(cmds, key=lambda r: -os.path.getsize(ROOT + "/" + r) if os.path.exists(ROOT + "/" + r) else 0)
        with cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
            for rel, key, err, new in ex.map(lambda r: run_tu(r, cmds[r], tool), order):
                fresh += new
                if err is not None:
                    errs.append((rel, err))
                else:
                    keys[rel] = key
        if errs:
            raise Broken("translation units that do not parse: " + "; ".join(f"{r}: {e[-800:]}" for r, e in errs[:3]))
        mk = hashlib.sha256((FORMAT + tool + json.dumps(keys, sort_keys=True)).encode()).hexdigest()
        mf = BUILD + "/merged.bin"
        data = None
        try:
            with open(mf, "rb") as f:
                if f.read(64).decode() == mk:
                    data = marshal.load(f)
        except (OSError, ValueError, EOFError):
            pass
        if data is None:
            data = merge(keys)
            with open(mf + ".tmp", "wb") as f:
                f.write(mk.encode())
                marshal.dump(data, f)
            os.rename(mf + ".tmp", mf)
    data["tus"] = sorted(keys)
    data["fresh"] = fresh
    data["load_s"] = round(time.time() - t0, 1)
    return data


if __name__ == "__main__":
    d = load(True)
    print(len(d["tus"]), "translation units,", d["fresh"], "parsed now,", len(d["functions"]), "functions,",
          len(d["classes"]), "classes,", len(d["globals"]), "globals,", d["load_s"], "s")
