"""Runs the rules of one property and turns their result into exit code, VIOLATION lines and evidence."""
import importlib
import json
import os
import sys
import time
import traceback

from . import facts
from .prog import Program


class Ctx:
    def __init__(self, pid, tier, prog):
        self.pid = pid
        self.tier = tier
        self.p = prog
        self.obs = []
        self.functions = set()
        self.events = 0
        self.notes = []
        self.extra = {}

    def ob(self, rule, instance, ok, where="", detail=""):
        self.obs.append((rule, instance, bool(ok), where, detail))

    def count(self, r):
        self.functions |= r.stats["functions"]
        self.events += r.stats["events"]

    def need(self, cond, msg):
        if not cond:
            raise facts.Broken(msg)

    def floor(self, rule, n):
        """the rule must have produced at least n obligations (else it has lost its anchors)"""
        got = sum(1 for o in self.obs if o[0] == rule)
        if got < n:
            raise facts.Broken(f"rule {rule} found only {got} instances, expected at least {n}")


def main(pid, tier):
    t0 = time.time()
    known = []
    kf = os.path.join(facts.VERIF, "known_findings.json")
    if os.path.exists(kf):
        with open(kf) as f:
            known = [k for k in json.load(f)["findings"] if k["property"] == pid and k["status"] == "open"]
    ctx, broken = None, None
    try:
        prog = Program()
        ctx = Ctx(pid, tier, prog)
        mod = importlib.import_module(f"rules.{pid.lower()}")
        mod.run(ctx)
        if tier == "thorough" and hasattr(mod, "thorough"):
            mod.thorough(ctx)
        for rule, n in getattr(mod, "FLOORS", {}).items():
            ctx.floor(rule, n)
        if not ctx.obs:
            raise facts.Broken("no obligation was generated")
    except facts.Broken as e:
        broken = f"ANALYSIS BROKEN property={pid}: {e}"
    except Exception:
        traceback.print_exc()
        broken = f"ANALYSIS BROKEN property={pid}: internal error"
    if broken:
        print(broken)
    bad = [o for o in ctx.obs if not o[2]] if ctx else []
    if broken and not bad:
        return 3
    seen_known, viol = [], []
    for o in bad:
        k = next((k for k in known if k["rule"] == o[0] and k["instance"] == o[1]), None)
        if k is not None:
            if k not in seen_known:
                seen_known.append(k)
        else:
            viol.append(o)
    for k in seen_known:
        print(f"KNOWN-FINDING: property={pid} {k['what']}")
    rep = os.path.join(facts.VERIF, "evidence", f"{pid}.report.txt")
    os.makedirs(os.path.dirname(rep), exist_ok=True)
    with open(rep, "w") as f:
        for rule, inst, ok, where, detail in ctx.obs:
            f.write(f"{'ok  ' if ok else 'FAIL'} [{rule}] {inst}\n       at {where}: {detail}\n")
    byrule = {}
    for o in ctx.obs:
        b = byrule.setdefault(o[0], [0, 0])
        b[0] += 1
        b[1] += o[2]
    ev = {
        "property": pid,
        "tier": tier,
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "other",
        "coverage": {
            "explanation": (mod.__doc__ or "").strip(),
            "translation_units": len(prog.data["tus"]),
            "functions_in_program": len(prog.fns),
            "functions_traversed": len(ctx.functions),
            "events_interpreted": ctx.events,
            "obligations": len(ctx.obs),
            "discharged": sum(1 for o in ctx.obs if o[2]),
            "rules": {r: {"instances": b[0], "holding": b[1]} for r, b in sorted(byrule.items())},
            "samples": [{"rule": o[0], "instance": o[1], "holds": o[2], "where": o[3], "detail": o[4]} for o in ctx.obs[:400]],
            "known_findings": [k["instance"] for k in seen_known],
            **ctx.extra,
        },
        "wall_s": round(time.time() - t0, 2),
        "violations": [{"rule": o[0], "instance": o[1], "where": o[3], "detail": o[4]} for o in viol],
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
    }
    with open(os.path.join(facts.VERIF, "evidence", f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    print(f"{pid} {tier}: {len(prog.data['tus'])} units ({prog.data['fresh']} parsed), {len(ctx.functions)} functions traversed, "
          f"{len(ctx.obs)} obligations, {len(viol)} violated, {len(seen_known)} known, {ev['wall_s']} s")
    if viol:
        for rule, inst, ok, where, detail in viol[:20]:
            print(f"  {where}: [{rule}] {inst}: {detail}")
        print(f"VIOLATION property={pid} replay=/verif/evidence/{pid}.report.txt")
        return 1
    return 3 if broken else 0
