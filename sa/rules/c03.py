"""C03  Outcome aggregation is severity-maximal, order-insensitive, lossless."""
from ..values import *
from ..scen import *

EXPLANATION = (
    "Path enumeration of koreo.result.combine / unwrapped_combine over every sequence of outcome classes up to the length bound, with "
    "opaque, falsy and list-shaped Ok data, absent/empty/distinct messages and every relative order of delays; then of the callers: "
    "reconcile_workflow over every combination of step outcome classes, forEach over every combination of iteration outcomes, and the "
    "readiness combination of prepare_workflow / refSwitch / overlays.  Each path's abstract result is judged against the severity lattice.")
RULES = ["severity: the class of the combination is the greatest class present",
         "ok-values: an Ok combination holds exactly the Ok values in sequence order",
         "messages: every message of the winning error class occurs in the combined message",
         "delay: a Retry combination has the greatest Retry delay",
         "total: combining never raises",
         "workflow-ok: a workflow is Ok only if no step is waiting or failed, and has the greatest class of its steps",
         "readiness: a definition with a non-ready part is not ready, with the greatest class of its parts"]
FLOOR = {"quick": 3000, "thorough": 20000}
ASSUMPTIONS = ["sequences up to length 3 (quick) / 4 (thorough); the folds process one element at a time, so longer sequences only repeat the pairwise combinations enumerated here"]

CLASSES = ("DepSkip", "Skip", "Ok", "Retry", "PermFail")


RETRIES = [("text", "own", 10), ("text", "own", 300), ("text", "shared", 0), (None, "own", 300), ("", "shared", 10), (None, None, 10)]
FAILS = [("text", "own"), ("text", "shared"), (None, "own"), ("", None)]


def element(s, i, unwrapped, only=None):
    """One outcome: class and payload (own = differs per element, shared = same for all)."""
    ip = s.ip
    k = only or CLASSES[ip.choose(5, f"class{i}")]
    if k == "Ok":
        data = [Sym(f"data{i}", STR), AList([f"x{i}"]), None, False][ip.choose(4, f"data{i}")]
        if unwrapped:
            return k, data, data, None, None
        return k, ip.call(s.cls["Ok"], [], {"data": data, "location": f"loc{i}"}), data, None, None
    d = None
    if k == "Retry":
        m, l, d = RETRIES[ip.choose(len(RETRIES), f"retry{i}")]
    elif k == "PermFail":
        m, l = FAILS[ip.choose(len(FAILS), f"fail{i}")]
    else:
        m, l = "text", "own"
    m = f"<msg {i}>" if m == "text" else m
    kw = {"message": m, "location": f"loc{i}" if l == "own" else "loc" if l else None}
    if d is not None:
        kw["delay"] = d
    return k, ip.call(s.cls[k], [], kw), None, m, d


def fold_scenario(fn, n, container, first=None):
    unwrapped = fn == "unwrapped_combine"

    def scen(s):
        elems = [element(s, i, unwrapped, first if i == 0 else None) for i in range(n)]
        objs = [e[1] for e in elems]
        if container == "values":
            seq = s.ip.call(s.ip.getattr_(ADict([(f"k{i}", o) for i, o in enumerate(objs)]), "values"), [], {})
        elif container == "tuple":
            seq = tuple(objs)
        else:
            seq = AList(objs)
        s.elems = elems
        r1 = s.call(f"koreo.result.{fn}", outcomes=seq)
        r2 = s.call(f"koreo.result.{fn}", outcomes=seq) if container != "values" else r1
        return elems, r1, r2

    def run(rec):
        for p in rec.explore(scenario(rec.chk, scen)):
            if p.error:
                rec.check(False, "total", f"koreo.result.{fn}", f"combining raises {p.error[1]!r} {getattr(p.error[1], 'value', '')!r}", p)
                continue
            s, (elems, r1, r2) = p.outcome
            kinds = [e[0] for e in elems]
            if not elems:
                rec.check(s.kind(r1) in ("Skip", "DepSkip", "value", "Ok"), "severity", f"koreo.result.{fn}", f"combination of nothing is {r1!r}", p)
                continue
            want = max(kinds, key=SEVERITY.get)
            for r in (r1, r2):
                judge_fold(rec, p, s, fn, unwrapped, elems, want, r)
    return run


def judge_fold(rec, p, s, fn, unwrapped, elems, want, r):
    ip = s.ip
    c = f"koreo.result.{fn}"
    got = s.kind(r)
    if unwrapped:
        got = "Ok" if got == "value" else got if got != "Ok" else "Ok-wrapped"
    seq = [e[0] for e in elems]
    if not rec.check(got == want, "severity", c, lambda: f"{fn}({seq}) is {got}, expected {want}", p):
        return
    if want == "Ok":
        data = ip.force(r if unwrapped else s.attr(r, "data"))
        vals = [e[2] for e in elems if e[0] == "Ok"]
        items = data.items if isinstance(data, AList) else None
        good = items is not None and len(items) == len(vals) and all(identical(a, b) for a, b in zip(items, vals))
        rec.check(good, "ok-values", c, lambda: f"{fn}({seq}) holds {data!r}, expected the values {vals!r}", p)
    if want in ("Retry", "PermFail"):
        m = ip.force(s.attr(r, "message"))
        for e in elems:
            if e[0] == want and e[3]:
                rec.check(isinstance(m, str) and e[3] in m, "messages", c, lambda: f"{fn}({seq}) message {m!r} lost {e[3]!r}", p)
    if want == "Retry":
        d = ip.force(s.attr(r, "delay"))
        longest = max(e[4] for e in elems if e[0] == "Retry")
        rec.check(d == longest and not isinstance(d, Sym), "delay", c, lambda: f"{fn}({[(e[0], e[4]) for e in elems]}) delay {d!r}, expected {longest}", p)


def identical(a, b):
    if isinstance(a, Sym) or isinstance(b, Sym):
        return isinstance(a, Sym) and isinstance(b, Sym) and a.core is b.core
    if isinstance(a, AList) and isinstance(b, AList):
        return len(a.items) == len(b.items) and all(identical(x, y) for x, y in zip(a.items, b.items))
    return type(a) is type(b) and a == b


# ------------------------------------------------------------------ callers
VF = {
    "preconditions": [
        {"assert": "=inputs.o != 'DepSkip'", "depSkip": {"message": "m-depskip"}},
        {"assert": "=inputs.o != 'Skip'", "skip": {"message": "m-skip"}},
        {"assert": "=inputs.o != 'Retry'", "retry": {"message": "=inputs.m", "delay": "=inputs.d"}},
        {"assert": "=inputs.o != 'PermFail'", "permFail": {"message": "=inputs.m"}},
    ],
    "return": {"v": "=inputs.v"},
}


def vf_inputs(i, k):
    return {"o": k, "m": f"<msg {i}>", "d": 10 + 50 * i, "v": f"val{i}"}


def workflow_scenario(n):
    def scen(s):
        ip = s.ip
        kinds = [CLASSES[ip.choose(5, f"step{i}")] for i in range(n)]
        s.cache("ValueFunction", "vf", dict(VF, preconditions=delay_fixed()))
        steps = [{"label": f"step{i}", "ref": {"kind": "ValueFunction", "name": "vf"}, "inputs": {"o": kinds[i], "m": f"<msg {i}>", "v": f"val{i}"}} for i in range(n)]
        wf, _ = s.prepare("Workflow", "wf", {"steps": steps})
        c = Cluster(ip)
        r = s.call("koreo.workflow.reconcile.reconcile_workflow", api=c.api, workflow_key="wk", owner=owner(), trigger=s.cel({}), workflow=wf)
        return kinds, s.attr(r, "result")

    def run(rec):
        for p in rec.explore(scenario(rec.chk, scen)):
            c = "koreo.workflow.reconcile.reconcile_workflow"
            if p.error:
                rec.check(False, "workflow-ok", c, f"workflow ends with {p.error[0]} {getattr(p.error[1], 'value', p.error[1])!r}", p)
                continue
            s, (kinds, r) = p.outcome
            want = max(kinds, key=SEVERITY.get)
            got = s.kind(r)
            got = "Ok" if got in ("value", "Ok") else got
            rec.check(got == want, "workflow-ok", c, lambda: f"steps {kinds} give overall {got}, expected {want}", p)
            if got == want and want in ("Retry", "PermFail"):
                m = s.text(s.attr(r, "message")) or ""
                for i, k in enumerate(kinds):
                    if k == want:
                        rec.check(f"<msg {i}>" in m, "messages", c, lambda: f"overall message {m!r} of steps {kinds} lost the message of step {i}", p)
            if got == want == "Ok":
                vals = [f"val{i}" for i, k in enumerate(kinds) if k == "Ok"]
                try:
                    have = [x["v"] for x in plain(s.ip, r)]
                except Exception:
                    have = None
                rec.check(have == vals, "ok-values", c, lambda: f"overall value of steps {kinds} is {s.show(r)}, expected the values {vals}", p)
    return run


def delay_fixed():
    pre = [dict(x) for x in VF["preconditions"]]
    pre[2] = {"assert": "=inputs.o != 'Retry'", "retry": {"message": "=inputs.m", "delay": 45}}
    return pre


def foreach_scenario(n):
    def scen(s):
        ip = s.ip
        kinds = [CLASSES[ip.choose(5, f"item{i}")] for i in range(n)]
        s.cache("ValueFunction", "vf", {"preconditions": [
            {"assert": "=inputs.it.o != 'DepSkip'", "depSkip": {"message": "m-depskip"}},
            {"assert": "=inputs.it.o != 'Skip'", "skip": {"message": "m-skip"}},
            {"assert": "=inputs.it.o != 'Retry'", "retry": {"message": "=inputs.it.m", "delay": 45}},
            {"assert": "=inputs.it.o != 'PermFail'", "permFail": {"message": "=inputs.it.m"}}], "return": {"v": "=inputs.it.v"}})
        wf, _ = s.prepare("Workflow", "wf", {"steps": [{"label": "each", "ref": {"kind": "ValueFunction", "name": "vf"},
                                                       "forEach": {"itemIn": "=parent.items", "inputKey": "it"}}]})
        items = [{"o": k, "m": f"<msg {i}>", "v": f"val{i}"} for i, k in enumerate(kinds)]
        r = s.call("koreo.workflow.reconcile.reconcile_workflow", api=Cluster(ip).api, workflow_key="wk", owner=owner(), trigger=s.cel({"items": items}), workflow=wf)
        return kinds, s.attr(r, "result")

    def run(rec):
        c = "koreo.workflow.reconcile._for_each_reconciler"
        for p in rec.explore(scenario(rec.chk, scen)):
            if p.error:
                rec.check(False, "workflow-ok", c, f"workflow ends with {p.error[0]} {getattr(p.error[1], 'value', p.error[1])!r}", p)
                continue
            s, (kinds, r) = p.outcome
            top = max(kinds, key=SEVERITY.get)
            want = top if top in ("Retry", "PermFail") else "Ok"
            got = s.kind(r)
            got = "Ok" if got in ("value", "Ok") else got
            rec.check(got == want, "workflow-ok", c, lambda: f"forEach over items {kinds} gives {got}, expected {want}", p)
            if got == want and want != "Ok":
                m = s.text(s.attr(r, "message")) or ""
                for i, k in enumerate(kinds):
                    if k == want:
                        rec.check(f"<msg {i}>" in m, "messages", c, lambda: f"forEach message {m!r} of items {kinds} lost the message of item {i}", p)
    return run


def readiness_workflow(rec):
    """Steps that are fine / whose function is missing (Retry) / whose expression does not parse (PermFail)."""
    def scen(s):
        ip = s.ip
        kinds = [("Ok", "Retry", "PermFail")[ip.choose(3, f"step{i}")] for i in range(3)]
        s.cache("ValueFunction", "vf", {"return": {"a": 1}})
        steps = []
        for i, k in enumerate(kinds):
            st = {"label": f"step{i}", "ref": {"kind": "ValueFunction", "name": "vf" if k != "Retry" else f"missing{i}"}}
            if k == "PermFail":
                st["skipIf"] = "=1 +"
            steps.append(st)
        r = s.prepare_raw("Workflow", "wf", {"steps": steps})
        if s.kind(r) != "value":
            return kinds, r, None
        wf = r[0]
        c = Cluster(ip)
        out = s.call("koreo.workflow.reconcile.reconcile_workflow", api=c.api, workflow_key="wk", owner=owner(), trigger=s.cel({}), workflow=wf)
        return kinds, s.attr(wf, "steps_ready"), s.attr(out, "result")
    for p in rec.explore(scenario(rec.chk, scen)):
        c = "koreo.workflow.prepare.prepare_workflow"
        if p.error:
            rec.check(False, "readiness", c, f"ends with {p.error[0]} {getattr(p.error[1], 'value', p.error[1])!r}", p)
            continue
        s, (kinds, ready, out) = p.outcome
        want = max(kinds, key=SEVERITY.get)
        got = s.kind(ready)
        rec.check((got in ("Ok", "value")) == (want == "Ok") and (want == "Ok" or got == want), "readiness", c,
                  lambda: f"steps {kinds}: readiness is {got}, expected {want}", p)
        if out is not None:
            g = s.kind(out)
            rec.check((g == "value") == (want == "Ok") and (want == "Ok" or g == want), "readiness", "koreo.workflow.reconcile.reconcile_workflow",
                      lambda: f"workflow with steps {kinds} reports {g}, expected {want}", p)


def readiness_switch(rec):
    """refSwitch cases whose function is ready / missing / failed to prepare."""
    def scen(s):
        ip = s.ip
        kinds = [("Ok", "Retry", "Retry!", "PermFail")[ip.choose(4, f"case{i}")] for i in range(3)]
        dflt = ip.choose(4, "default")
        s.cache("ValueFunction", "vf", {"return": {"a": 1}})
        s.cache("ValueFunction", "bad", {"return": {"a": "=1 +"}})
        cases = []
        for i, k in enumerate(kinds):
            cs = {"case": f"c{i}", "kind": "ValueFunction" if k != "PermFail" else "Nonsense", "name": {"Ok": "vf", "Retry": f"missing{i}", "Retry!": "bad", "PermFail": "vf"}[k]}
            if dflt == i:
                cs["default"] = True
            cases.append(cs)
        r = s.prepare_raw("Workflow", "wf", {"steps": [{"label": "switch", "refSwitch": {"switchOn": "=parent.x", "cases": cases}}]})
        if s.kind(r) != "value":
            return kinds, r
        return kinds, s.attr(r[0], "steps_ready")
    for p in rec.explore(scenario(rec.chk, scen)):
        c = "koreo.workflow.prepare._load_logic_switch"
        if p.error:
            rec.check(False, "readiness", c, f"ends with {p.error[0]} {getattr(p.error[1], 'value', p.error[1])!r}", p)
            continue
        s, (kinds, ready) = p.outcome
        ks = [k.rstrip("!") for k in kinds]
        want = max(ks, key=SEVERITY.get)
        got = s.kind(ready)
        rec.check((got in ("Ok", "value")) == (want == "Ok") and (want == "Ok" or got == want), "readiness", c,
                  lambda: f"refSwitch cases {kinds}: readiness is {got}, expected {want}", p)


def readiness_overlays(rec):
    def scen(s):
        ip = s.ip
        kinds = [("Ok", "Ok-ref", "Retry", "PermFail")[ip.choose(4, f"overlay{i}")] for i in range(3)]
        s.cache("ValueFunction", "vf", {"return": {"spec": {"z": 1}}})
        ov = [{"Ok": {"overlay": {"spec": {"q": 1}}}, "Ok-ref": {"overlayRef": {"kind": "ValueFunction", "name": "vf"}},
               "Retry": {"overlayRef": {"kind": "ValueFunction", "name": f"missing{i}"}}, "PermFail": {"overlay": {"spec": {"q": "=1 +"}}}}[k] for i, k in enumerate(kinds)]
        r = s.prepare_raw("ResourceFunction", "rf", rf_spec(overlays=ov))
        if s.kind(r) != "value":
            return kinds, r
        return kinds, reconcile_rf(s, r[0], Cluster(ip))[0]
    for p in rec.explore(scenario(rec.chk, scen)):
        c = "koreo.resource_function.prepare._prepare_overlays"
        if p.error:
            rec.check(False, "readiness", c, f"ends with {p.error[0]} {getattr(p.error[1], 'value', p.error[1])!r}", p)
            continue
        s, (kinds, out) = p.outcome
        ks = [k.split("-")[0] for k in kinds]
        want = max(ks, key=SEVERITY.get)
        got = s.kind(out)
        made = [e for e in mutations(p.events)]
        if want == "Ok":
            rec.check(got == "Retry" and len(made) == 1, "readiness", c, lambda: f"overlays {kinds}: outcome {got} with {len(made)} mutations, expected creation", p)
        else:
            rec.check(got == want and not made, "readiness", c, lambda: f"overlays {kinds}: outcome {got} with {len(made)} mutations, expected {want} and none", p)


def scenarios(chk, tier):
    for fn in ("combine", "unwrapped_combine"):
        chk.get(f"koreo.result.{fn}")
        for n in (0, 1, 2):
            for c in ("list", "values", "tuple"):
                yield f"{fn}/{n}/{c}", fold_scenario(fn, n, c)
        for k in CLASSES:
            yield f"{fn}/3/{k}", fold_scenario(fn, 3, "list", k)
            if tier == "thorough":
                yield f"{fn}/4/{k}", fold_scenario(fn, 4, "list", k)
    for n in (1, 2) + ((3, 4) if tier == "thorough" else (3,)):
        yield f"workflow/{n}", workflow_scenario(n)
    for n in (1, 2, 3):
        yield f"forEach/{n}", foreach_scenario(n)
    yield "readiness/workflow", readiness_workflow
    yield "readiness/refSwitch", readiness_switch
    yield "readiness/overlays", readiness_overlays
