"""Workflow building blocks shared by the workflow rules."""
from .values import *
from .scen import *

CLASSES = ("Ok", "DepSkip", "Skip", "Retry", "PermFail")
REC = "koreo.workflow.reconcile._reconcile_steps"
SWITCH = "koreo.workflow.reconcile._reconcile_ref_switch"

PRE = [
    {"assert": "=inputs.o != 'DepSkip'", "depSkip": {"message": "m-depskip"}},
    {"assert": "=inputs.o != 'Skip'", "skip": {"message": "m-skip"}},
    {"assert": "=inputs.o != 'Retry'", "retry": {"message": "m-retry", "delay": 45}},
    {"assert": "=inputs.o != 'PermFail'", "permFail": {"message": "m-permfail"}},
]


def mark(label):
    return f"MARK<{label}>"


def vf_spec(label):
    """A ValueFunction whose outcome is chosen by inputs.o; its expressions carry a mark."""
    pre = [dict(x) for x in PRE]
    pre[0] = {"assert": f"=inputs.o != 'DepSkip' || '{mark(label)}' == ''", "depSkip": {"message": "m-depskip"}}
    return {"preconditions": pre, "locals": {"w": f"=has(inputs.v) ? inputs.v : '{mark(label)}-none'"},
            "return": {"v": "=locals.w", "mark": f"BODY{mark(label)}", "no": False, "yes": True, "text": "yes", "sw": "one", "items": "=[locals.w]"}}


def rf_spec_for(label):
    pre = vf_spec(label)["preconditions"]
    return {"apiConfig": {"apiVersion": "test.koreo.dev/v1", "kind": "Thing", "plural": "things", "name": f"obj-{label}", "namespace": "ns1", "owned": False},
            "preconditions": pre, "resource": {"spec": {"a": 1, "b": "two"}}, "locals": {"w": f"=has(inputs.v) ? inputs.v : '{mark(label)}-none'"},
            "return": {"v": "=locals.w", "mark": f"BODY{mark(label)}", "no": False, "yes": True, "sw": "one", "text": "yes", "items": "=[locals.w]"}}


def thing(name, **spec):
    return {"apiVersion": "test.koreo.dev/v1", "kind": "Thing", "metadata": {"name": name, "namespace": "ns1", "uid": f"uid-{name}"}, "spec": {"a": 1, "b": "two", **spec}}


def put_functions(s, label, kinds=("vf", "switch", "rf", "wf")):
    """vf-LABEL, vf-LABEL-alt, rf-LABEL and wf-LABEL."""
    if "vf" in kinds or "wf" in kinds or "switch" in kinds:
        s.cache("ValueFunction", f"vf-{label}", vf_spec(label))
    if "switch" in kinds:
        s.cache("ValueFunction", f"vf-{label}-alt", vf_spec(f"{label}-alt"))
    if "rf" in kinds:
        s.cache("ResourceFunction", f"rf-{label}", rf_spec_for(label))
    if "wf" in kinds:
        s.cache("Workflow", f"wf-{label}", {"steps": [{"label": f"sub-{label}", "ref": {"kind": "ValueFunction", "name": f"vf-{label}"}, "inputs": {"o": "=parent.o"}, "state": {"v": "=value.v"}}]})


def run_workflow(s, wf, cluster, trigger, own=None):
    trig = s.cel(trigger) if isinstance(trigger, dict) else trigger
    return s.call("koreo.workflow.reconcile.reconcile_workflow", api=cluster.api, workflow_key="wk", owner=own if own is not None else owner(), trigger=trig, workflow=wf)


def runner_text(e):
    t = e.data["runner"].attrs.get("text")
    return t if isinstance(t, str) else ""


def logic_events(events, label):
    """Expression evaluations and API operations that belong to the Logic of one step."""
    m = mark(label)
    out = []
    for e in events:
        if e.kind == "evaluate" and m in runner_text(e):
            out.append(e)
        elif e.kind == "api" and f"obj-{label}" in api_names(e):
            out.append(e)
    return out


def api_names(e):
    d = e.data
    if d["op"] == "get":
        return [n for n in d["names"] if isinstance(n, str)]
    n = d.get("name")
    if n is None and d.get("payload") is not None:
        try:
            n = dict_at(d["payload"], "metadata", "name")
        except Exception:
            n = None
    return [n] if isinstance(n, str) else []


def dict_at(v, *keys):
    for k in keys:
        v = v.e[hkey(k)][1]
        if isinstance(v, Lazy):
            v = v.chosen
    return v


def body_count(events, label):
    """How often the body of the Logic was evaluated."""
    m = f"BODY{mark(label)}"
    return sum(1 for e in events if e.kind == "evaluate" and m in runner_text(e))


def first(evs):
    return evs[0] if evs else None


def first_index(events, evs):
    ids = {id(e) for e in evs}
    return next((i for i, e in enumerate(events) if id(e) in ids), None)


def last_index(events, evs):
    ids = {id(e) for e in evs}
    return next((i for i in range(len(events) - 1, -1, -1) if id(events[i]) in ids), None)


REASONS = {"DepSkip": "DepSkip", "Skip": "Skip", "Wait": "Retry", "Failure": "PermFail", "Ready": "Ok"}


def condition_classes(s, r):
    """condition type -> outcome class it reports"""
    ip = s.ip
    out = {}
    for c in ip.listof(s.attr(r, "conditions")):
        c = ip.force(c)
        t, reason = (ip.force(ip.getitem(c, "type")), ip.force(ip.getitem(c, "reason"))) if isinstance(c, ADict) else (s.attr(c, "type"), s.attr(c, "reason"))
        out[t] = REASONS.get(reason, reason)
    return out


def received(s, events, label, key, default=None):
    """What the Logic of a step got under inputs.<key> (from the activation of its expressions)."""
    ip = s.ip
    for e in reversed(events):
        if e.kind == "evaluate" and mark(label) in runner_text(e):
            act = ip.force(e.data["activation"])
            v = ip.dict_get(act, "inputs")
            v = ip.force(v) if v is not MISSING else None
            if isinstance(v, ADict):
                x = ip.dict_get(v, key)
                return default if x is MISSING else x
    return default


def _lat(f):
    return lambda ip, label: f(label)


LATENCIES = {
    "zero": None,
    "slow-first": _lat(lambda l: 1 if "aaa" in l else 0.25),
    "slow-last": _lat(lambda l: 0.25 if "aaa" in l else 1),
}
