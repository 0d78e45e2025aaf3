"""Running the rules of one property, sharded over processes, and writing verdict and evidence."""
import importlib
import json
import multiprocessing
import os
import re
import sys
import time
import traceback

from .engine import Checker, AnchorLost
from .interp import Event

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("KOREO_REPO", "/repo")
KNOWN = os.path.join(ROOT, "known-findings.txt")


class Broken(Exception):
    """The analysis itself can not give a verdict."""


def where(stack):
    """innermost analysed source position and the call path leading to it"""
    pos = None
    path = []
    for q, f, l in stack or ():
        if not f or "koreo" not in f:
            continue
        path.append(q)
        pos = f"{f}:{l}"
    return pos, path


class Rec:
    """Collects what the scenarios of one shard decide."""

    def __init__(self, chk, tier, seed, only=None, deadline=None):
        self.chk = chk
        self.tier = tier
        self.thorough = tier == "thorough"
        self.seed = seed
        self.only = only
        self.deadline = deadline
        self.scenario = None
        self.obligations = {}
        self.undecided = {}
        self.undecided_n = 0
        self.violations = {}
        self.samples = []
        self.paths = 0
        self.distinct = 0
        self.truncated = []
        self.replayed = []
        self.sites = {}
        self._sig = set()

    # -- exploring
    def explore(self, scen, limit=None, name=None):
        """Abstract paths of `scen` that the interpreter models exactly; the others are counted as undecided."""
        chk = self.chk
        if limit is None:
            limit = 60000 if self.thorough else 6000
        n = 0
        for p in chk.explore(scen, limit):
            n += 1
            self.paths += 1
            if p.error and p.error[0] == "abort":
                self.undecide(f"{p.error[1]}")
                continue
            if p.imprecise:
                self.undecide(p.imprecise[0])
                continue
            sig = (self.scenario, name, p.key())
            if sig not in self._sig:
                self._sig.add(sig)
                self.distinct += 1
            if self.paths % 17 == 1 and len(self.samples) < 3:
                self.samples.append({"scenario": self.scenario, "choices": p.choices()[:20], "steps": p.steps,
                                     "events": [e.kind for e in p.events][:20], "outcome": short(p.outcome if p.error is None else p.error)})
            yield p
            if self.deadline and time.time() > self.deadline:
                self.truncated.append(self.scenario)
                return
        if chk.truncated:
            self.truncated.append(self.scenario)

    def one(self, scen):
        """The only path of a scenario without choices (None when not decided)."""
        out = None
        for p in self.explore(scen):
            if out is not None:
                raise Broken(f"{self.scenario}: scenario was expected to have one path")
            out = p
        return out

    def undecide(self, why):
        self.undecided_n += 1
        why = str(why)
        if len(self.undecided) < 60 or why in self.undecided:
            self.undecided[why] = self.undecided.get(why, 0) + 1

    def site(self, kind, pos):
        if pos:
            self.sites.setdefault(kind, set()).add(pos)

    # -- judging
    def ok(self, rule):
        self.obligations[rule] = self.obligations.get(rule, 0) + 1

    def check(self, cond, rule, construct, text, path=None, event=None, stack=None):
        """One obligation.  `construct` names what is at fault independently of line numbers."""
        self.ok(rule)
        if cond:
            return True
        key = f"{rule}@{construct}"
        pos, cp = None, []
        if event is not None:
            stack = event.stack
        if stack is None and path is not None and path.error and path.error[0] == "raise":
            stack = path.error[1].trace
        if stack:
            pos, cp = where(stack)
        if key not in self.violations:
            self.violations[key] = {
                "rule": rule, "construct": construct, "text": text() if callable(text) else text, "at": pos, "call_path": cp,
                "scenario": self.scenario, "choices": path.choices() if path is not None else [],
                "decisions": list(path.key()) if path is not None else [], "count": 0,
            }
        self.violations[key]["count"] += 1
        return False

    def dump(self):
        d = {k: getattr(self, k) for k in ("obligations", "undecided", "undecided_n", "violations", "samples", "paths", "distinct", "truncated")}
        d["sites"] = {k: sorted(v) for k, v in self.sites.items()}
        d["called"] = sorted(self.chk.called)
        d["steps"] = self.chk.steps
        return d


def short(x, n=300):
    s = repr(x)
    return s if len(s) <= n else s[:n] + "..."


def clean(s):
    """remove run-dependent identity from texts"""
    return re.sub(r"0x[0-9a-f]{6,}", "0x..", s)


def load_rule(prop):
    return importlib.import_module(f"sa.rules.{prop.lower()}")


_STATE = {}


def start(prop, tier):
    """Per worker process: parse and load the program once."""
    try:
        mod = load_rule(prop)
        chk = Checker(REPO)
        chk.load()
        _STATE.update(chk=chk, todo=dict(mod.scenarios(chk, tier)))
    except BaseException:
        _STATE["broken"] = traceback.format_exc()


def one_scenario(args):
    prop, tier, seed, name, deadline = args
    if "broken" in _STATE:
        return {"broken": _STATE["broken"]}
    chk = _STATE["chk"]
    chk.called, chk.steps = set(), 0
    rec = Rec(chk, tier, seed, deadline=deadline)
    rec.scenario = name
    t0 = time.time()
    skipped = []
    try:
        if t0 > deadline:
            skipped.append(name)
        else:
            _STATE["todo"][name](rec)
    except AnchorLost as e:
        return {"broken": f"anchor lost: {e} (scenario {name})"}
    except Broken as e:
        return {"broken": str(e)}
    except Exception as e:
        rec.undecide(f"scenario {name} not analysable: {type(e).__name__}: {e} " + traceback.format_exc().strip().splitlines()[-3].strip())
        if os.environ.get("SA_DEBUG"):
            traceback.print_exc()
    d = rec.dump()
    d["skipped"] = skipped
    d["name"], d["wall"] = name, time.time() - t0
    return d


def known(prop):
    out = {}
    try:
        with open(KNOWN) as f:
            for line in f:
                line = line.strip()
                m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line)
                if m and m.group(1) == prop:
                    out[m.group(2)] = m.group(3)
    except FileNotFoundError:
        pass
    return out


def fresh_key(s):
    return re.sub(r"\s+", "_", s)


def merge(parts):
    tot = {"obligations": {}, "undecided": {}, "undecided_n": 0, "violations": {}, "samples": [], "paths": 0, "distinct": 0,
           "truncated": [], "sites": {}, "called": set(), "steps": 0, "skipped": []}
    for d in parts:
        for k, v in d["obligations"].items():
            tot["obligations"][k] = tot["obligations"].get(k, 0) + v
        for k, v in d["undecided"].items():
            tot["undecided"][k] = tot["undecided"].get(k, 0) + v
        for k, v in d["violations"].items():
            if k in tot["violations"]:
                tot["violations"][k]["count"] += v["count"]
            else:
                tot["violations"][k] = v
        for k in ("undecided_n", "paths", "distinct", "steps"):
            tot[k] += d[k]
        tot["truncated"] += d["truncated"]
        tot["skipped"] += d["skipped"]
        tot["samples"] += d["samples"]
        for k, v in d["sites"].items():
            tot["sites"].setdefault(k, set()).update(v)
        tot["called"] |= set(d["called"])
    return tot


def run(prop, tier, seed, jobs=None, only=None):
    t0 = time.time()
    os.makedirs(os.path.join(ROOT, "evidence", "replay"), exist_ok=True)
    ev = os.path.join(ROOT, "evidence", f"{prop}.json")
    try:
        os.remove(ev)
    except OSError:
        pass
    mod = load_rule(prop)
    try:
        chk = Checker(REPO)
        chk.load()
        names = [n for n, _ in mod.scenarios(chk, tier)]
    except AnchorLost as e:
        print(f"ANALYSIS-BROKEN property={prop} anchor lost: {e}")
        return 2
    except Exception as e:
        print(f"ANALYSIS-BROKEN property={prop} {type(e).__name__}: {e}")
        if os.environ.get("SA_DEBUG"):
            traceback.print_exc()
        return 2
    if len(set(names)) != len(names):
        raise Broken("duplicate scenario names")
    if only:
        names = [n for n in names if re.search(only, n)]
    jobs = jobs or min(8, os.cpu_count() or 1, max(1, len(names)))
    budget = getattr(mod, "BUDGET", {}).get(tier, 240 if tier == "quick" else 780)
    deadline = t0 + budget
    args = [(prop, tier, seed, n, deadline) for n in names]
    if jobs == 1 or os.environ.get("SA_SERIAL"):
        start(prop, tier)
        parts = [one_scenario(a) for a in args]
    else:
        ctx = multiprocessing.get_context("fork")
        with ctx.Pool(jobs, start, (prop, tier)) as pool:
            parts = list(pool.imap_unordered(one_scenario, args, 1))
    if os.environ.get("SA_DEBUG"):
        for d in sorted((d for d in parts if "wall" in d), key=lambda d: -d["wall"])[:6]:
            print(f"   slow: {d['name']} {d['wall']:.1f}s {d['paths']} paths")
    parts.sort(key=lambda d: d.get("name", ""))
    for p in parts:
        if "broken" in p:
            print(f"ANALYSIS-BROKEN property={prop} {p['broken']}")
            return 2
    tot = merge(parts)
    return verdict(prop, tier, seed, mod, tot, names, time.time() - t0, only)


def verdict(prop, tier, seed, mod, tot, names, wall, only=None):
    listed = known(prop)
    new, old = [], []
    for key in sorted(tot["violations"]):
        v = tot["violations"][key]
        (old if fresh_key(key) in listed else new).append((key, v))
    for i, (key, v) in enumerate(new):
        path = os.path.join(ROOT, "evidence", "replay", f"{prop}-{i}.json")
        with open(path, "w") as f:
            json.dump({"property": prop, "tier": tier, "key": key, **v}, f, indent=1, default=str)
        print(f"FINDING {prop} rule={v['rule']} construct={v['construct']}")
        if v["at"]:
            print(f"  at {v['at']}")
        if v["call_path"]:
            print(f"  call path: {' > '.join(v['call_path'])}")
        print(f"  {clean(v['text'])}")
        print(f"  scenario: {v['scenario']}  path: {', '.join(v['choices']) or '(single path)'}  ({v['count']} path(s))")
        print(f"  key={fresh_key(key)}")
        print(f"VIOLATION property={prop} replay={path}")
    for key, v in old:
        print(f"KNOWN-FINDING: property={prop} {listed[fresh_key(key)]}")
    n = sum(tot["obligations"].values())
    floor = getattr(mod, "FLOOR", {}).get(tier, 1)
    bad = sum(v["count"] for _, v in new) + sum(v["count"] for _, v in old)
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": mod.EXPLANATION,
            "rules": mod.RULES,
            "scenarios": len(names),
            "evaluations": tot["paths"],
            "distinct_nontrivial": tot["distinct"],
            "rule": "one case = one abstract path (one combination of the abstract choices of a scenario); non-trivial = fully modelled and judged",
            "obligations": n,
            "discharged": n - bad,
            "obligations_by_rule": tot["obligations"],
            "undecided_paths": tot["undecided_n"],
            "undecided_reasons": dict(sorted(tot["undecided"].items(), key=lambda x: -x[1])[:15]),
            "truncated_scenarios": sorted(set(tot["truncated"])),
            "scenarios_not_reached": tot["skipped"],
            "functions_analysed": sorted(tot["called"]),
            "abstract_steps": tot["steps"],
            "sites": {k: sorted(v) for k, v in tot["sites"].items()},
            "known_findings": [listed[fresh_key(k)] for k, _ in old],
            "samples": [json.loads(clean(json.dumps(s, default=str))) for s in tot["samples"][:4]],
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []) + COMMON_ASSUMPTIONS,
        "wall_s": round(wall, 3),
        "violations": len(new),
    }
    with open(os.path.join(ROOT, "evidence", f"{prop}.json"), "w") as f:
        json.dump(evidence, f, indent=1, default=str)
    print(f"{prop} {tier}: {len(names)} scenarios, {tot['paths']} abstract paths, {n} obligations, {tot['undecided_n']} undecided, "
          f"{len(new)} violations, {len(old)} known, {wall:.1f}s")
    if tot["undecided_n"] and os.environ.get("SA_DEBUG"):
        for k, v in sorted(tot["undecided"].items(), key=lambda x: -x[1])[:20]:
            print("   undecided:", v, k)
    if new:
        return 1
    if n < floor and not only:
        print(f"ANALYSIS-BROKEN property={prop} only {n} obligations decided, floor {floor}")
        return 2
    return 0


COMMON_ASSUMPTIONS = [
    "third-party libraries behave as summarised in sa/lib.py, sa/cel.py and sa/loop.py (celpy 0.3.0, kr8s 0.20.7, asyncio of CPython 3.12/3.13, fastjsonschema)",
    "the verdict covers the finite abstract input partition listed per scenario; inputs outside it are not decided",
    "paths the interpreter can not model exactly are counted as undecided and never reported",
]


def replay(path):
    with open(path) as f:
        d = json.load(f)
    prop = d["property"]
    mod = load_rule(prop)
    chk = Checker(REPO)
    chk.load()
    rec = Rec(chk, d.get("tier", "quick"), 1)
    rec.scenario = d["scenario"]
    dict(mod.scenarios(chk, rec.tier))[d["scenario"]](rec)
    for k, v in rec.violations.items():
        print(("* " if k == d["key"] else "  ") + k)
        print("   ", clean(v["text"]), v["at"] or "", " > ".join(v["call_path"]))
    return 1 if d["key"] in rec.violations else 0
