"""FunctionTest building blocks: Functions under test, running test cases, the reference reading of their state."""
import copy
import json
import re

from .values import *
from .scen import *
from .rf import deep_merge, ANNOTATION, exc_text, without_annotation, tidy

RUN = "koreo.function_test.run.run_function_test"
CASE = "koreo.function_test.run._run_test_case"
LOOKUP = "koreo.cache.get_resource_from_cache"

PRE = [{"assert": "=!has(inputs.bad)", "permFail": {"message": "Bad Input given"}},
       {"assert": "=!has(inputs.skipped)", "skip": {"message": "Not wanted"}},
       {"assert": "=!has(inputs.blocked)", "depSkip": {"message": "Waits for Other"}},
       {"assert": "=!has(inputs.later)", "retry": {"message": "Come back Later", "delay": 17}}]
POST = [{"assert": "=!has(resource.status) || !has(resource.status.broken)", "permFail": {"message": "Broken state"}},
        {"assert": "=!has(resource.status) || !has(resource.status.wait)", "retry": {"message": "Not ready", "delay": 3}}]
RES = {"metadata": {"labels": {"app": "=string(inputs.n)"}}, "spec": {"n": "=inputs.n", "m": "=inputs.m", "fixed": {"t": True, "l": [1, "two", False], "d": 2.5, "e": ""}}}
RET = {"all": "=inputs", "n": "=inputs.n", "m": "=inputs.m", "spec": "=has(resource.spec) ? resource.spec : 'none'", "status": "=has(resource.status) ? resource.status : 'none'", "flag": "=inputs.n > 1", "list": ["=inputs.n", True, 1.5, "x"], "nested": {"deep": {"k": "=inputs.n"}}}
VRET = {"all": "=inputs", "n": "=inputs.n", "m": "=inputs.m", "sum": "=locals.sum", "flag": "=inputs.n > 1", "list": ["=inputs.n", True, 1.5, "x", {"a": 1}], "nested": {"deep": {"k": "=inputs.n", "e": ""}}}


def functions():
    """name -> (kind, spec, other resources to cache first)"""
    rf = lambda **o: rf_spec(**{"preconditions": PRE, "postconditions": POST, "resource": RES, "return": RET, **o})
    tpl = ("ResourceTemplate", "tpl-x", {"template": {"apiVersion": "test.koreo.dev/v1", "kind": "Thing", "spec": {"from": "template"}}})
    return {
        "value": ("ValueFunction", {"preconditions": PRE, "locals": {"sum": "=inputs.n + 1"}, "return": VRET}, []),
        "patch": ("ResourceFunction", rf(update={"patch": {"delay": 7}}, create={"enabled": True, "delay": 9, "overlay": {"spec": {"first": "=inputs.n"}}}), []),
        "default": ("ResourceFunction", rf(), []),
        "recreate": ("ResourceFunction", rf(update={"recreate": {"delay": 8}}), []),
        "never": ("ResourceFunction", rf(update={"never": {}}), []),
        "readonly": ("ResourceFunction", rf(api={"readonly": True}), []),
        "remove": ("ResourceFunction", rf(api={"deleteIfExists": True}), []),
        "no-create": ("ResourceFunction", rf(create={"enabled": False}), []),
        "owned": ("ResourceFunction", rf(api={"owned": True}), []),
        "no-plural": ("ResourceFunction", rf(api={"plural": ..., "kind": "Mouse"}), []),
        "no-plural-recreate": ("ResourceFunction", rf(api={"plural": ..., "kind": "Goose", "apiVersion": "v1"}, update={"recreate": {"delay": 8}}), []),
        "named": ("ResourceFunction", rf(api={"name": "='thing-' + string(inputs.n)", "namespace": "=inputs.n > 4 ? 'ns2' : 'ns1'"}, create={"overlay": {"spec": {"first": "=resource.metadata.name"}}}), []),
        "cluster-scoped": ("ResourceFunction", rf(api={"namespaced": False, "namespace": ...}), []),
        "template": ("ResourceFunction", rf(resource=..., resourceTemplateRef={"name": "='tpl-' + inputs.tpl"}, overlays=[{"overlay": {"spec": {"n": "=inputs.n"}}}, {"overlayRef": {"kind": "ValueFunction", "name": "ov"}, "inputs": {"m": "=inputs.m"}, "skipIf": "=inputs.n > 5"}]),
                     [tpl, ("ValueFunction", "ov", {"return": {"spec": {"m": "=inputs.m"}}})]),
    }


class Res:
    """One TestCaseResult."""

    def __init__(self, s, r):
        ip = s.ip
        a = lambda n: ip.force(s.attr(r, n))
        self.passed, self.label = a("test_pass"), a("label")
        self.message = norm(s.text(a("message")))
        out = a("outcome")
        k, msg, delay, val = s.out(out)
        self.kind, self.outcome = k, (k, norm(msg), s.show(delay), val)
        self.value = None
        if k == "Ok":
            try:
                self.value = plain(ip, out)
            except NotHost:
                self.value = NotHost
        self.exact = ip.force(s.attr(out, "message")) if k not in ("Ok", "Ok!") else None
        if not isinstance(self.exact, str):
            self.exact = None
        self.out_message, self.delay = msg, ip.force(delay) if delay is not None else None
        self.expected = norm(repr(s.out(a("expected_outcome"))))
        self.differences = s.show(a("differences"))

    def key(self):
        return (self.passed, self.label, self.message, self.outcome, self.expected, self.differences)

    def __repr__(self):
        return f"{self.label}: {'passed' if self.passed else 'failed'} {self.kind} {self.message or ''}"[:160]


def norm(m):
    """Places name the position of the case; that is not part of its result."""
    return re.sub(r"testCases\[\d+[^]]*\]", "testCases[]", m) if isinstance(m, str) else m


class Run:
    def __init__(self):
        self.error, self.fatal, self.results, self.events = None, None, [], []

    def keys(self):
        return [r.key() for r in self.results]


class Bench:
    """A cached Function under test."""

    def __init__(self, s, which, name="fut", spec=None, before=()):
        self.s = s
        if isinstance(which, str) and spec is None:
            kind, spec, before = functions()[which]
        else:
            kind = which
        for k, n, sp in before:
            s.cache(k, n, sp)
        self.kind, self.name, self.spec, self.rf = kind, name, spec, kind == "ResourceFunction"
        self.fn = s.cache(kind, name, spec, "1")
        self.memo = {}

    def usable(self):
        return self.s.kind(self.fn) == "value"

    def spec_of(self, cases, inputs=None, resource=None):
        out = {"functionRef": {"kind": self.kind, "name": self.name}, "testCases": copy.deepcopy(cases)}
        if inputs is not None:
            out["inputs"] = copy.deepcopy(inputs)
        if resource is not None:
            out["currentResource"] = copy.deepcopy(resource)
        return out

    def prepared(self, cases, inputs=None, resource=None):
        return self.s.prepare("FunctionTest", "ft", self.spec_of(cases, inputs, resource))[0]

    def run(self, cases, inputs=None, resource=None):
        try:
            ft = self.prepared(cases, inputs, resource)
        except AExc as e:
            r = Run()
            r.error = f"prepare raises {exc_text(self.s.ip, e)}"
            return r
        return self.run_prepared(ft)

    def run_prepared(self, ft):
        s, ip = self.s, self.s.ip
        run = Run()
        n = len(ip.events)
        try:
            r = ip.force(s.call(RUN, location="loc", function_test=ft))
            run.fatal = ip.force(s.attr(r, "fatal_error"))
            run.results = [Res(s, x) for x in ip.listof(s.attr(r, "test_results"))]
        except AExc as e:
            run.error = exc_text(ip, e)
        run.events = [(e.data["op"], wire(ip, e.data["payload"]) if e.data.get("payload") is not None else None) for e in mutations(ip.events[n:])]
        return run

    def probe(self, body, inputs, resource):
        """What one case does on its own: (result, state after it)."""
        key = json.dumps([body, inputs, resource], sort_keys=True)
        if key not in self.memo:
            case = {k: v for k, v in body.items() if k not in ("variant", "skip")}
            case = {**case, "label": "the probe", "expectReturn": {"zz": "no"}}
            run = self.run([case], inputs, resource)
            res = run.results[0] if run.results else None
            self.memo[key] = (run, res, after(body, inputs, resource, run))
        return self.memo[key]


def after(body, inputs, resource, run):
    """The state the next case starts from, given what was sent."""
    ins = deep_merge_all(inputs or {}, body.get("inputOverrides") or {})
    res = copy.deepcopy(resource) or {}
    if body.get("overlayResource"):
        res = deep_merge_all(res, literal(body["overlayResource"], ins))
    elif body.get("currentResource"):
        res = copy.deepcopy(body["currentResource"])
    start = res
    for op, payload in run.events:
        res = {} if op == "delete" else {**res, **payload} if op == "patch" else payload
    return ins, res, start


def literal(doc, ins):
    """The few expressions the cases use in overlays."""
    if isinstance(doc, dict):
        return {k: literal(v, ins) for k, v in doc.items()}
    return {"=n": ins.get("n"), "=n + 1": ins.get("n", 0) + 1, "='lit'": "lit"}.get(doc, doc) if isinstance(doc, str) else doc


def deep_merge_all(base, over):
    out = copy.deepcopy(base)
    for k, v in over.items():
        if isinstance(v, dict) and isinstance(out.get(k), dict):
            out[k] = deep_merge_all(out[k], v)
        else:
            out[k] = copy.deepcopy(v)
    return out


def truths(bench, run, res, state):
    """Assertions which hold for what a case did."""
    out = []
    ops = [op for op, _ in run.events]
    if res.kind == "Ok":
        if isinstance(res.value, dict) and res.value:
            out.append({"expectReturn": res.value})
        out.append({"expectOutcome": {"ok": {}}})
    else:
        msg = res.exact or ""
        name = res.kind[0].lower() + res.kind[1:]
        body = {"message": re.sub(r"\s*\(?loc\.testCases.*", "", msg)[:40]}
        if res.kind == "Retry":
            body["delay"] = res.delay
        out.append({"expectOutcome": {name: body}})
        out.append({"expectOutcome": {name: {"message": "", **({"delay": 0} if res.kind == "Retry" else {})}}})
    if bench.rf:
        if "create" in ops or "patch" in ops:
            out.append({"expectResource": tidy(without_annotation(state[1])[0])})
        out.append({"expectDelete": "delete" in ops})
    return out


def untruths(res):
    """Assertions which do not hold for it."""
    return [{"expectOutcome": {"retry": {"message": "", "delay": 0}} if res.kind == "PermFail" else {"permFail": {"message": ""}}}, {"expectReturn": {"zz": "no"}}]
