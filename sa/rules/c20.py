"""C20  Preparing any definition never crashes; schema violations are rejected."""
import copy
import json
import os

import yaml

from ..values import *
from ..scen import *
from ..lib import to_abs
from ..cel import parse
from ..rf import judged, edit, setter, remover, batches

EXPLANATION = (
    "The five prepare functions and the cache around them are interpreted on specs derived from complete definitions of every kind: each node, at every path, removed, retyped (every JSON type, odd texts, oversized "
    "lists, unknown members) or both of two nodes at a time, and every JSON type as the spec itself; and on expressions enumerated from the expression grammar (every primary, member form and operator, nested) "
    "in every expression-bearing field, parseable or not, in definitions whose references are prepared, failed, missing or of the wrong kind. A reference evaluation of the bundled CRD schema, read from the "
    "current files, tells which specs violate it; those must end as PermFail with no expression compiled and nothing looked up.")
RULES = ["raises: no exception escapes a prepare function",
         "result: the outcome is a prepared resource of the kind (with what it watches) or a PermFail/Retry with a message",
         "rejected: a spec violating the bundled CRD schema of its kind is a PermFail",
         "before: for such a spec nothing is compiled and no resource is looked up",
         "cached: the cache entry points do not raise either and return the outcome of the preparation",
         "bigint, locals: the same as raises for integers beyond 64 bits in FunctionTests, and for failing locals of the Function under test"]
FLOOR = {"quick": 60000, "thorough": 300000}
ASSUMPTIONS = ["documents are not nested deeper than Python's recursion limit allows to copy", "violations of x-kubernetes-* extensions of the CRDs (only known to API servers) are not schema violations"]

FILES = {"ValueFunction": "value-function", "ResourceFunction": "resource-function", "ResourceTemplate": "resource-template", "Workflow": "workflow", "FunctionTest": "function-test"}
LOOKUPS = {"koreo.cache.get_resource_from_cache", "koreo.cache.get_resource_system_data_from_cache"}

# ---------------------------------------------------------------- reference schema evaluation
TYPES = {"object": dict, "array": list, "string": str, "boolean": bool}


def violates(schema, doc):
    """True, False, or None when the schema language leaves it open."""
    if doc is None and schema.get("nullable") is True:
        return None
    unclear = False

    def sub(r):
        nonlocal unclear
        unclear |= r is None
        return r is True
    t = schema.get("type")
    if t == "integer":
        if isinstance(doc, bool) or not isinstance(doc, (int, float)) or isinstance(doc, float) and not doc.is_integer():
            return True
    elif t == "number":
        if isinstance(doc, bool) or not isinstance(doc, (int, float)):
            return True
    elif t is not None and (not isinstance(doc, TYPES[t]) or t != "boolean" and isinstance(doc, bool)):
        return True
    if "enum" in schema and not any(type(doc) is type(x) and doc == x for x in schema["enum"]):
        return True
    if isinstance(doc, str) and not schema.get("minLength", 0) <= len(doc) <= schema.get("maxLength", len(doc)):
        return True
    if isinstance(doc, list):
        if not schema.get("minItems", 0) <= len(doc) <= schema.get("maxItems", len(doc)):
            return True
        if "items" in schema and any([sub(violates(schema["items"], x)) for x in doc]):
            return True
    if isinstance(doc, dict):
        if not schema.get("minProperties", 0) <= len(doc) <= schema.get("maxProperties", len(doc)):
            return True
        if any(k not in doc and "default" not in schema.get("properties", {}).get(k, {}) for k in schema.get("required", ())):
            return True
        if schema.get("additionalProperties") is False and set(doc) - set(schema.get("properties", ())):
            return True
        if any([sub(violates(p, doc[k])) for k, p in schema.get("properties", {}).items() if k in doc]):
            return True
    for word in ("oneOf", "anyOf"):
        if word in schema:
            rs = [violates(x, doc) for x in schema[word]]
            n = rs.count(False)
            if None in rs:
                unclear = True
            elif n == 0 or word == "oneOf" and n > 1:
                return True
    return None if unclear else False


def schemas(chk):
    """kind -> spec schema of the served version, read from the analysed tree."""
    got = chk.__dict__.get("crd_schemas")
    if got is None:
        got = chk.crd_schemas = {}
        root = os.path.join(chk.program.root if hasattr(chk.program, "root") else os.environ.get("KOREO_REPO", "/repo"), "src/koreo/schema")
        for f in sorted(os.listdir(root)):
            if f.endswith(".yaml"):
                with open(os.path.join(root, f)) as h:
                    for doc in yaml.safe_load_all(h):
                        if doc and doc.get("kind") == "CustomResourceDefinition":
                            for v in doc["spec"]["versions"]:
                                if v["name"] == "v1beta1":
                                    got[doc["spec"]["names"]["kind"]] = v["schema"]["openAPIV3Schema"]["properties"]["spec"]
    return got


# ---------------------------------------------------------------- preparing and judging
class Try:
    def __init__(self, s, kind, spec, name="x", through_cache=False):
        ip = s.ip
        self.kind, self.spec = kind, spec
        seen, ip.called = ip.called, set()
        self.compiled = []
        real = ip.hooks.get("cel_compile")

        def compile_(ip, text):
            self.compiled.append(text)
            return real(ip, text) if real else NotImplemented
        ip.hooks["cel_compile"] = compile_
        self.error = self.out = None
        ip.steps = 0        # the bound is per preparation
        try:
            if through_cache:
                self.out = s.cache(kind, name, spec)
            else:
                self.out = ip.force(s.call(s.get(PREPARERS[kind][0]), name, to_abs(spec)))
        except AExc as e:
            self.error = f"{e.value.cls.name}: {e.value!r}"
        finally:
            ip.hooks["cel_compile"] = real
            self.looked = sorted(ip.called & LOOKUPS)
            ip.called |= seen


def attempt(s, later, kind, spec, text, name="x", special=None, schema=True):
    """Prepare once and check all rules; the outcome, or None after an exception."""
    fn = PREPARERS[kind][0]
    bad = violates(schemas(s.chk)[kind], spec) if schema and kind in schemas(s.chk) else None
    t = Try(s, kind, spec, name)
    what = lambda: f"{kind} {text() if callable(text) else text}"
    if not later.check(t.error is None, special or "raises", fn, lambda: f"{what()}: raises {t.error}"[:700]):
        return None
    outcome = s.kind(t.out)
    if outcome == "value":
        cls = s.get(PREPARERS[kind][1])
        ok = isinstance(t.out, tuple) and len(t.out) == 2 and isinstance(s.ip.force(t.out[0]), AInst) and s.ip.force(t.out[0]).cls.issub(cls)
        later.check(ok, "result", fn, lambda: f"{what()}: gives {t.out!r}, which is no prepared {kind}"[:700])
    else:
        msg = s.ip.force(s.attr(t.out, "message")) if outcome in ("PermFail", "Retry") else None
        later.check(outcome in ("PermFail", "Retry") and (isinstance(msg, str) and msg.strip() != "" or isinstance(msg, (AStr, Sym))), "result", fn, lambda: f"{what()}: gives {outcome} with message {msg!r}"[:700])
    if bad is True:
        later.check(outcome == "PermFail", "rejected", fn, lambda: f"{what()}: violates the schema but gives {outcome}"[:700])
        later.check(not t.compiled and not t.looked, "before", fn, lambda: f"{what()}: violates the schema but {len(t.compiled)} expressions were compiled, {', '.join(t.looked) or 'nothing'} called"[:700])
    return outcome


# ---------------------------------------------------------------- definitions
def predicates():
    return [{"assert": "=inputs.a == 'b'", "skip": {"message": "skip it"}}, {"assert": "=has(inputs.b)", "depSkip": {"message": "dep"}}, {"assert": "=true", "retry": {"message": "again", "delay": 5}},
            {"assert": "=inputs.x.y[0] > 1", "permFail": {"message": "='no ' + inputs.x"}}, {"assert": "=true", "ok": {}}]


API = {"apiVersion": "test.koreo.dev/v1", "kind": "Thing", "plural": "things", "namespaced": True, "owned": True, "readonly": False, "deleteIfExists": False, "name": "=inputs.name", "namespace": "=inputs.ns"}
SPECS = {
    "ValueFunction": {
        "full": {"preconditions": predicates(), "locals": {"l": "=inputs.l.map(x, x.n)", "m": {"k": ["=inputs.k", 1, True, None, "text"]}}, "return": {"v": "=locals.l", "o": {"k": {"d": "=1 + 2"}, "e": {}}, "s": "plain", "n": None, "f": 1.5}},
        "asserts": {"preconditions": predicates()[:1]},
        "returns": {"return": {"a": "=inputs.a"}},
    },
    "ResourceFunction": {
        "inline": {"preconditions": predicates(), "locals": {"a": "=inputs.a"}, "apiConfig": API, "resource": {"metadata": {"labels": {"a": "=inputs.a"}}, "spec": {"l": ["=locals.a", {"x": "=1"}], "n": None}},
                   "overlays": [{"overlay": {"spec": {"o": "=inputs.o"}}, "skipIf": "=inputs.skip"}, {"overlayRef": {"kind": "ValueFunction", "name": "vf-ok"}, "inputs": {"a": "=inputs.a"}, "skipIf": "=!true"}, {"overlay": {"x": 1}}],
                   "create": {"enabled": True, "delay": 10, "overlay": {"spec": {"c": "=inputs.c"}}}, "update": {"patch": {"delay": 5}}, "delete": {"destroy": {}}, "postconditions": predicates()[2:4], "return": {"r": "=resource.spec"}},
        "ref": {"apiConfig": {k: v for k, v in API.items() if k in ("apiVersion", "kind", "name", "namespaced")} | {"namespaced": False}, "resourceTemplateRef": {"name": "=inputs.tpl"}, "create": {"enabled": False}, "update": {"recreate": {"delay": 3}}, "delete": {"abandon": {}}},
        "never": {"apiConfig": API, "resource": {"a": 1}, "update": {"never": {}}},
        "refs": {"apiConfig": API, "resource": {"a": 1}, "overlays": [{"overlayRef": {"kind": "ValueFunction", "name": n}, "inputs": {"a": 1}} for n in ("vf-failed", "vf-none", "vf-ok")] + [{"overlayRef": {"kind": "ValueFunction", "name": "vf-ok"}}]},
    },
    "ResourceTemplate": {
        "full": {"template": {"apiVersion": "test.koreo.dev/v1", "kind": "Thing", "metadata": {"name": "a", "labels": {"x": "y"}}, "spec": {"l": [1, None, {"a": 1.5}], "t": True}}, "context": {"a": {"b": [1, "x"]}}},
        "bare": {"template": {"apiVersion": "v1", "kind": "Thing"}},
    },
    "Workflow": {
        "full": {"crdRef": {"apiGroup": "test.koreo.dev", "version": "v1", "kind": "Trigger"}, "steps": [
            {"label": "one", "ref": {"kind": "ValueFunction", "name": "vf-ok"}, "inputs": {"a": "=parent.spec.a", "b": {"c": ["=parent.metadata.name"]}}, "condition": {"type": "One", "name": "The first"}, "state": {"s": "=value.x"}},
            {"label": "two", "ref": {"kind": "ResourceFunction", "name": "rf-ok"}, "skipIf": "=steps.one.x == 1", "forEach": {"itemIn": "=steps.one.l", "inputKey": "item", "condition": {"type": "Each", "name": "Each item"}}, "inputs": {"a": "=steps.one"}},
            {"label": "three", "refSwitch": {"switchOn": "=steps.two[0].kind", "cases": [{"case": "a", "kind": "ValueFunction", "name": "vf-ok", "default": True}, {"case": "b", "kind": "Workflow", "name": "wf-ok"}, {"case": "c", "kind": "ResourceFunction", "name": "rf-ok"}]}, "state": {"t": "=steps.one.x"}},
            {"label": "four", "ref": {"kind": "Workflow", "name": "wf-ok"}, "inputs": {"z": 1}}]},
        "refs": {"steps": [{"label": f"st{i}", "ref": {"kind": k, "name": n}} for i, (k, n) in enumerate((("ValueFunction", "vf-failed"), ("ResourceFunction", "rf-failed"), ("Workflow", "wf-none"), ("Workflow", "wf-failed"), ("ValueFunction", "vf-none")))]
                 + [{"label": "sw1", "refSwitch": {"switchOn": "=inputs.a", "cases": [{"case": "a", "kind": "ValueFunction", "name": "vf-failed"}, {"case": "b", "kind": "Workflow", "name": "wf-none"}]}},
                    {"label": "sw2", "refSwitch": {"switchOn": "='a'", "cases": [{"case": "a", "kind": "ValueFunction", "name": "vf-ok"}, {"case": "a", "kind": "Workflow", "name": "wf-ok"}]}}, {"label": "sw2", "ref": {"kind": "ValueFunction", "name": "vf-ok"}}]},
        "empty": {"steps": []},
    },
    "FunctionTest": {
        "resource": {"functionRef": {"kind": "ResourceFunction", "name": "rf-ok"}, "inputs": {"name": "n", "l": [1, {"x": True}]}, "currentResource": {"apiVersion": "test.koreo.dev/v1", "kind": "Thing", "metadata": {"name": "a"}}, "testCases": [
            {"label": "a", "variant": True, "skip": False, "inputOverrides": {"a": {"b": 1}}, "currentResource": {"apiVersion": "v1", "kind": "Thing"}, "overlayResource": {"spec": {"x": "=n"}}, "expectResource": {"spec": {"a": 1}}},
            {"label": "b", "expectDelete": False}, {"expectReturn": {"v": 1}}, {"label": "d variant", "variant": True, "expectOutcome": {"retry": {"message": "x", "delay": 0}}}, {"expectOutcome": {"ok": {}}}, {"expectOutcome": {"skip": {"message": ""}}},
            {"expectOutcome": {"depSkip": {"message": "a"}}}, {"skip": True, "expectOutcome": {"permFail": {"message": "a"}}}]},
        "value": {"functionRef": {"kind": "ValueFunction", "name": "vf-ok"}, "testCases": [{"expectReturn": {"v": [1, {"a": None}]}, "inputOverrides": {"k": None}}]},
        "template": {"functionRef": {"kind": "ResourceFunction", "name": "rf-tpl"}, "inputs": {"tpl": "t"}, "testCases": [{"inputOverrides": {"tpl": "u"}, "expectDelete": True}]},
        "missing": {"functionRef": {"kind": "ValueFunction", "name": "vf-none"}, "testCases": []},
        "failed": {"functionRef": {"kind": "ResourceFunction", "name": "rf-failed"}, "inputs": {}, "testCases": [{"label": "x", "expectDelete": True}]},
    },
}
BIG = [2 ** 63, -2 ** 63 - 1, 2 ** 70, 10 ** 30]


def world(s):
    """Definitions the specs refer to, in every state."""
    s.memoise = False
    s.cache("ValueFunction", "vf-ok", {"return": {"x": "=inputs.a"}})
    s.cache("ValueFunction", "vf-failed", {"return": {"x": "=inputs.("}})
    s.cache("ResourceTemplate", "t", {"template": {"apiVersion": "v1", "kind": "Thing"}})
    s.cache("ResourceFunction", "rf-ok", rf_spec())
    s.cache("ResourceFunction", "rf-failed", {"apiConfig": {"apiVersion": "v1", "kind": "Thing", "name": "=(", "namespace": "x"}, "resource": {"a": 1}})
    tpl = rf_spec(resourceTemplateRef={"name": "=inputs.tpl + locals.x"}, locals={"x": "='y'"})
    tpl.pop("resource", None)
    s.cache("ResourceFunction", "rf-tpl", tpl)
    s.cache("Workflow", "wf-ok", {"steps": [{"label": "sub", "ref": {"kind": "ValueFunction", "name": "vf-ok"}, "inputs": {"a": 1}}]})
    s.cache("Workflow", "wf-failed", {"steps": [{"label": "sub", "ref": {"kind": "ValueFunction", "name": "vf-failed"}}]})


def nodes(doc, at=()):
    if isinstance(doc, dict):
        for k, v in doc.items():
            yield at + (k,), v
            yield from nodes(v, at + (k,))
    elif isinstance(doc, list):
        for i, v in enumerate(doc):
            yield at + (i,), v
            yield from nodes(v, at + (i,))


CONFUSED = [None, True, False, 0, 7, -1, 2.5, 5.0, "", "x", " ", "=", "==", "=(", "='a'", "=1.x", "=[", "a.b/c", "\0", "\ud800", [], [None], ["a"], [{}], [[]], [1, "=x"], ["a"] * 25, [{}] * 25, {}, {"a": None}, {"": ""}, {"a": {"b": []}}, {"kind": 1, "name": []}, {"message": 1, "delay": "x"}, {"name": {}}, "y" * 70]
FEW = [None, True, 7, "x", "=", "=(", [], ["a"], {}, {"a": 1}, [{}] * 25]


def confusions(doc, values, stride=1):
    """(document, description), both as functions: every node removed, retyped or extended."""
    put = lambda path, v: (lambda: edit(doc, path, setter(v)), lambda: f"with {path} = {json.dumps(v)[:60]}")
    for i, (path, node) in enumerate(nodes(doc)):
        yield lambda path=path: edit(doc, path, remover), lambda path=path: f"without {path}"
        for v in values[i % stride::stride]:
            yield put(path, v)
        if isinstance(node, list):
            for v in (node * 25, node + [None], node + ["x"], node + [{}], node + [[]], [None] + node, node + node, {str(i): x for i, x in enumerate(node)}, node[::-1], json.dumps(node)):
                yield put(path, v)
        elif isinstance(node, dict):
            for v in ({**node, "zz": 1}, {**node, "": None}, {**node, "assert": "=x"}, [node], [node, node], list(node), {k.upper(): x for k, x in node.items()}, json.dumps(node)):
                yield put(path, v)
        elif isinstance(node, str):
            for v in ([node], {"x": node}, node + "(", "=" + node, node.lstrip("="), node * 30, node.upper(), "=" + node + ".a.b[0](1)", node + " // ="):
                yield put(path, v)
    for k, v in SECTIONS.items():
        if isinstance(doc, dict) and k not in doc:
            yield lambda k=k, v=v: {**doc, k: v}, lambda k=k: f"with also {k}"


SECTIONS = {"preconditions": [{"assert": "=true", "ok": {}}], "locals": {"a": 1}, "return": {"a": 1}, "resource": {"a": 1}, "resourceTemplateRef": {"name": "t"}, "overlays": [{"overlay": {"a": 1}}], "zz": {}, "steps": [], "template": {}, "context": None, "inputs": {}, "testCases": [{}], "functionRef": {}, "create": None, "update": {}}


def corrupt(kind, name, part, of, stride):
    def body(s, later):
        world(s)
        docs = [(lambda: SPECS[kind][name], lambda: "as it is")] + list(confusions(SPECS[kind][name], CONFUSED, stride))
        for doc, text in docs[part::of]:
            attempt(s, later, kind, doc(), lambda: f"'{name}' {text()}")
    return body


def pairs(kind, name, part, of, stride):
    """Two nodes confused at a time."""
    def body(s, later):
        world(s)
        n = 0
        for i, (doc, text) in enumerate(confusions(SPECS[kind][name], FEW)):
            for j, (two, text2) in enumerate(confusions(doc(), FEW)):
                n += 1
                if (n * 7919 + i) % stride == part:
                    attempt(s, later, kind, two(), lambda: f"'{name}' {text()}, {text2()}")
    return body


ROOTS = [None, True, False, 0, 1.5, "", "x", "=x", [], [1], [{}], {}, {"a": 1}, {"spec": {}}, {"": {}}, [["return", {}]], {"return": {}}, {"preconditions": []}, {"steps": None}, {"template": []}, {"functionRef": None}, {"apiConfig": {}}, {"zz": [1] * 1000}]


def roots(kind):
    def body(s, later):
        world(s)
        for v in ROOTS + [SPECS[k][n] for k in SPECS for n in SPECS[k]]:
            attempt(s, later, kind, v, lambda: f"spec = {json.dumps(v)[:100]}")
    return body


def bigints(kind, name):
    """Integers CEL has no equivalent for."""
    def body(s, later):
        world(s)
        base = SPECS[kind][name]
        for path, node in nodes(base):
            for v in BIG if not isinstance(node, (dict, list)) else ({"n": BIG[0]}, [BIG[1]]):
                attempt(s, later, kind, edit(base, path, setter(v)), lambda: f"'{name}' with {path} = {v}", special="bigint" if kind == "FunctionTest" else None)
        if kind == "ResourceTemplate":
            for v in BIG:
                attempt(s, later, kind, {**base, "context": {"a": [v]}}, lambda: f"'{name}' with context integer {v}")
    return body


TEXTS = ["a.b", "a.b.c", ".", "..", "a.", ".a", "/", "a/b", "a/b/c", "a.b/c", "a.b/c/d", "a/b.c", "\0", "a\0b", "\ud800", "é", "A B", "=x", "='a'", "Pod", "pods", "v1", "x" * 300, "a:b", "\n", "{}", "-", "Deployment.apps", "Deployment.v1.apps", "v1/", "/v1", "a//b", "a/b/"]


def apis(part, of, all_):
    """apiVersion and kind texts; what an odd one leaves behind must not disturb the next definition."""
    def body(s, later):
        world(s)
        todo = [(v, k) for i, v in enumerate(["test.koreo.dev/v1", "v1"] + TEXTS) for j, k in enumerate(["Thing"] + TEXTS) if all_ or i < 2 or j < 1 or (i + j) % 6 == 0]
        for v, k in todo[part::of]:
            spec = rf_spec(api={"apiVersion": v, "kind": k})
            attempt(s, later, "ResourceFunction", spec, lambda: f"with apiVersion {v!r}, kind {k!r}")
            got = attempt(s, later, "ResourceFunction", rf_spec(), lambda: f"prepared after one with apiVersion {v!r}, kind {k!r}")
            if v.count("/") > 1 or k.count("/") > 1:
                later.check(got in (None, "value"), "result", PREPARERS["ResourceFunction"][0], lambda: f"an ordinary ResourceFunction gives {got} after one with apiVersion {v!r}, kind {k!r}")
        for plural in TEXTS[part::of]:
            attempt(s, later, "ResourceFunction", rf_spec(api={"plural": plural, "name": plural, "namespace": plural}), lambda: f"with plural, name, namespace {plural!r}")
    return body


# ---------------------------------------------------------------- expressions
PRIMARY = ["a", "inputs", ".a", ".a(b)", ".a()", "a(b)", "a()", "(a)", "(a.b)", "(a + b)", "((a))", "(a ? b : c)", "(-a)", "(!a)", "(a[0])", "(a.b(c))", "(a())", "[a, b]", "[]", "[a.b]", "{a: b}", "{}", "{'a': b.c}", "1", "1u", "1.5", "1e3", "0x1F", "'s'", '"s"', "r's'", "'''s'''", "b's'", "true", "false", "null",
           "'\\n'", "'\\x41'", "''", "has(a.b)", "type(1)", "a.b", "a[b]", "a{}", "a.b{f: 1}", "int", "'a' 'b'", "-a", "!a", "- - a", "!!a", "-1", "--1", "size('a')", "(null)", "('s')", "(1.5)", "([1])", "({})"]
OPS = [".m", ".m()", ".m(x)", ".m(x, y.z)", "[0]", "['k']", "[x]", "[x.y]", "[-1]", "[1.5]", "[true]", "[null]", "[a ? b : c]", "[[1]]", "[{}]", "[(x)]", "[f(x)]", "[b'k']", "[1u]", "['']", ".map(i, i)", ".filter(i, i.x)", ".all(i, true)", ".exists(i, i[0])", "{f: x}", "{}", ".m.n", ".size()", ".true", ".in", "[x][y]", ".self.map(i, {'a': i.b})[0]"]
WRAPS = ["@", "(@)", "@ + 1", "1 - @", "@ * @", "@ / 2", "@ % 2", "@ < 1", "1 <= @", "@ == @", "@ != null", "@ in [@]", "@ && @", "@ || true", "@ ? @ : @", "(@ ? 1 : 2) ? @ : 3", "!(@)", "-(@)", "!@", "-@", "[@]", "[@, @]", "{'a': @}", "{@: 1}", "f(@)", "x.f(@)", "'a'.f(@, @)", "a[@]", "a[@].b", "[@][0]", "{'a': @}.a", "{'a': @}['a'].b", "(@).b", "(@)[0]", "(@).f(1)", "(@ + 1).b",
         "[1].map(x, @)", "[@].filter(x, @ == x)", "has(@.x)", "has(a[@].x)", "type(@)", "dyn(@).x", "Msg{f: @}", "a.Msg{f: @}.g", "((@)).x", "(-(@)).x", "(!(@))[0]", "[[@]][0][0].x", "(true && @).x", "(@ < 1).x", "(@ in a).x", "x.f(@).g.h(@)[0]", "@ // comment", "\n@\n", "a.b[@].c[@].d(@).e"]


def expressions():
    out = []
    for p in PRIMARY:
        for o in [""] + OPS:
            out.append(p + o)
    for i, p in enumerate(PRIMARY):
        for j, o in enumerate(OPS):
            for k, o2 in enumerate(OPS):
                if (i * 5 + j * 3 + k) % 4 == 0:
                    out.append(p + o + o2)
    for w in WRAPS:
        for i, p in enumerate(PRIMARY):
            out.append(w.replace("@", p))
            out.append(w.replace("@", p + OPS[i % len(OPS)]))
        for o in OPS:
            out.append(w.replace("@", "a" + o))
            out.append(w.replace("@", "(x)" + o + ".z"))
        for w2 in WRAPS:
            out.append(w.replace("@", w2.replace("@", "a.b")))
            out.append(w.replace("@", w2.replace("@", "1")))
    return list(dict.fromkeys(out))


LONG = ["a" + ".b" * 90, "a" + "[0]" * 70, "a" + ".b()" * 90, "(" * 60 + "a" + ")" * 60, "[" * 60 + "a" + "]" * 60, "a" + ".b[c.d]" * 45, " + ".join(["a.b"] * 60), "a" + ".b" * 40 + "(x)" + ".c" * 50, "!" * 50 + "a", "(a)" + ".b" * 90, "'s'" + ".b" * 90, "a" + "['k']" * 70, "true ? " * 60 + "a" + " : b" * 60, "a" + "[x.y.z]" * 25 + ".b" * 65]


def broken():
    base = "=has(inputs.a['k'].b) ? [1, 2.5, 'x'].map(i, {'k': i.f(1)[0]}) : Msg{f: -1u} != null"
    return [base[:i] for i in range(1, len(base))] + [base[:i] + c + base[i:] for i in range(1, len(base), 3) for c in (")", "'", "\\", ".", "\0", "=", "é")] + ["=" + w for w in ("", " ", "=", "a..b", "a.", ".", "a.1", "1.a.b", "a b", "'", '"', "'''", "r'", "b'\\xff'", "'\\xZZ'", "'\\u12'", "'\\U00110000'", "'\\ud800'", "0x", "1e", "1e999", "99999999999999999999", "-9223372036854775808", "1u1", "as", "in", "a in", "if", "for x", "a?b", "a?:b", "{a}", "{:}", "[,]", "[a,]", "{a:1,}", "f(,)", "f(a,)", "a.f(", "true.x", "false()", "true()", "null.x", "null()", "a.null", "a.true.b", "a.in", "//", "a //", "# x", "a;b", "@", "$x", "`a`", "a\\nb", "\\", "\u2028", "a\u00a0b")]


def in_locals(texts):
    return {"ValueFunction": lambda: ("ValueFunction", {"locals": {f"e{i}": t for i, t in enumerate(texts)}, "return": {"a": 1}})}


def vf(part_):
    return lambda ts: ("ValueFunction", {"return": {"a": 1}, **part_(ts)})


def rfn(part_):
    return lambda ts: ("ResourceFunction", {**rf_spec(), **part_(ts)})


def many(ts):
    return {f"e{i}": t for i, t in enumerate(ts)}


def steps(one):
    ref = {"ref": {"kind": "ValueFunction", "name": "vf-ok"}}
    return lambda ts: ("Workflow", {"steps": [{"label": f"st_{i}", **ref, **one(t)} for i, t in enumerate(ts)]})


# field -> (how many expressions fit, spec of a list of expressions)
PLACES = {
    "vf-locals": (40, vf(lambda ts: {"locals": many(ts)})),
    "vf-return": (40, vf(lambda ts: {"return": many(ts)})),
    "vf-return-deep": (40, vf(lambda ts: {"return": {"a": {"b": [{"c": many(ts)}, ts]}}})),
    "vf-assert": (18, vf(lambda ts: {"preconditions": [{"assert": t, "skip": {"message": "x"}} for t in ts]})),
    "vf-message": (18, vf(lambda ts: {"preconditions": [{"assert": "=true", "permFail": {"message": t}} for t in ts]})),
    "rf-resource": (40, rfn(lambda ts: {"resource": {"spec": many(ts)}})),
    "rf-locals": (40, rfn(lambda ts: {"locals": {"deep": [many(ts)]}})),
    "rf-return": (40, rfn(lambda ts: {"return": many(ts)})),
    "rf-overlay": (40, rfn(lambda ts: {"overlays": [{"overlay": {"spec": {t_[0]: t_[1]}}} for t_ in many(ts).items()]})),
    "rf-skip": (40, rfn(lambda ts: {"overlays": [{"overlay": {"a": 1}, "skipIf": t} for t in ts]})),
    "rf-overlay-inputs": (40, rfn(lambda ts: {"overlays": [{"overlayRef": {"kind": "ValueFunction", "name": "vf-ok"}, "inputs": {"a": t}} for t in ts]})),
    "rf-create": (40, rfn(lambda ts: {"create": {"overlay": {"spec": many(ts)}}})),
    "rf-post": (18, rfn(lambda ts: {"postconditions": [{"assert": t, "retry": {"message": t, "delay": 1}} for t in ts]})),
    "rf-name": (1, rfn(lambda ts: {"apiConfig": {**API, "name": ts[0]}})),
    "rf-namespace": (1, rfn(lambda ts: {"apiConfig": {**API, "namespace": ts[0]}})),
    "rf-template": (1, lambda ts: ("ResourceFunction", {"apiConfig": API, "resourceTemplateRef": {"name": ts[0]}})),
    "wf-inputs": (18, steps(lambda t: {"inputs": {"a": t}})),
    "wf-state": (18, steps(lambda t: {"state": {"a": {"b": [t]}}})),
    "wf-skip": (18, steps(lambda t: {"skipIf": t})),
    "wf-each": (18, steps(lambda t: {"forEach": {"itemIn": t, "inputKey": "item"}})),
    "wf-switch": (18, lambda ts: ("Workflow", {"steps": [{"label": f"st_{i}", "refSwitch": {"switchOn": t, "cases": [{"case": "a", "kind": "ValueFunction", "name": "vf-ok", "default": True}]}} for i, t in enumerate(ts)]})),
    "ft-overlay": (40, lambda ts: ("FunctionTest", {"functionRef": {"kind": "ResourceFunction", "name": "rf-ok"}, "currentResource": {"apiVersion": "v1", "kind": "Thing"}, "testCases": [{"overlayResource": {"spec": many(ts)}, "expectDelete": True}]})),
}


def expressed(place, texts, singly=False, parseable=None, limit=None):
    n, make = PLACES[place]

    def body(s, later):
        world(s)
        if limit:
            s.ip.recursion = limit
        todo = [t for t in texts if isinstance(t, str) and (parseable is None or parseable == (t[:1] == "=" and not isinstance(parse(t[1:]), Exception)))]
        for chunk in batches(todo, 1 if singly else n):
            kind, spec = make(chunk)
            t = Try(s, kind, spec)
            if t.error is None and len(chunk) > 1:
                outcome = s.kind(t.out)
                later.check(outcome in ("value", "PermFail", "Retry"), "result", PREPARERS[kind][0], lambda: f"{kind} {place}: {outcome} for {chunk}"[:500])
                for _ in chunk[1:]:
                    later.check(True, "raises", PREPARERS[kind][0], lambda: "")
                continue
            for e in chunk:         # which one?
                kind, spec = make([e])
                attempt(s, later, kind, spec, lambda: f"{place}: {e[:200]!r}")
    return body


NAMES = ["=inputs.tpl", "=locals.x", "='a' + inputs.tpl", "t", "=inputs.m['a'].b", "=locals.m[inputs.tpl]", "=inputs.l[0]", "=[inputs.tpl][0]", "=1", "=null", "=inputs", "=inputs.nothere", "=inputs.nothere.x[0]", "=1/0", "=nosuch(1)", "='a'.nosuch()", "=inputs.l.map(x, x)[5]", "=(inputs.tpl)", "={'a': inputs.tpl}.a", "=true ? inputs.tpl : ''", "='t'", "=['t'][0]", "={'a': 't'}.a", "=1/0 == 1 ? 'a' : 'b'", "=has(inputs.a) ? 'x' : 'y'", "=size(inputs.l)", "=''", "=inputs.tpl[0]"]
LOCALS = [None, {"x": "='y'"}, {"x": "=inputs.tpl"}, {"x": "='y'", "m": {"t": "=inputs.tpl"}}]
FAILING = [{"x": "=inputs.nothere"}, {"x": "=1/0"}, {"x": "=nosuch(1)"}, {"x": "=inputs.l[9]"}, {"x": "=[][0]"}, {"x": "=inputs.tpl.nosuch()"}, {"x": "=[1].map(x, x/0)"}, {"x": "=inputs.l.map(x, x.nothere)"}, {"x": "=inputs.l.filter(x, x + 1)"}, {"x": "=inputs.nothere.map(x, x)"}, {"x": "={[1]: 1}"}, {"x": ["={'a': 1/0}"]}]
INPUTS = [None, {}, {"tpl": "t", "l": ["a"], "m": {"a": {"b": "c"}}}, {"tpl": 5, "l": "x"}, {"tpl": None}]
OVERRIDES = [None, {}, {"tpl": "u"}, {"tpl": {"deep": 1}}, {"l": [], "m": None}, {"m": {"a": {"b": "d"}}}]


def templates(part, of, failing=False):
    """FunctionTests of Functions whose template is named by an expression."""
    def body(s, later):
        world(s)
        n = 0
        for name in NAMES:
            for loc in FAILING if failing else LOCALS:
                n += 1
                if n % of != part:
                    continue
                spec = rf_spec(resourceTemplateRef={"name": name}, **({"locals": loc} if loc else {}))
                spec.pop("resource", None)
                s.cache("ResourceFunction", "rf-under-test", spec, version=f"{n}")
                for ins in INPUTS:
                    cases = [{"expectDelete": False, **({"inputOverrides": o} if o is not None else {})} for o in OVERRIDES]
                    test = {"functionRef": {"kind": "ResourceFunction", "name": "rf-under-test"}, "testCases": cases, **({"inputs": ins} if ins is not None else {})}
                    attempt(s, later, "FunctionTest", test, lambda: f"of a Function with template {name!r}, locals {loc}, inputs {ins}", special="locals" if failing else None)
    return body


def cached(kind, part, of):
    """The cache around preparers: offered, looked up, offered again."""
    def body(s, later):
        world(s)
        n = 0
        for name in SPECS[kind]:
            docs = [(lambda: SPECS[kind][name], lambda: "as it is")] + list(confusions(SPECS[kind][name], FEW))
            for make, text in docs:
                n += 1
                if n % of != part:
                    continue
                doc = make()
                key = f"cached-{n}"
                t = Try(s, kind, doc, key, through_cache=True)
                if not later.check(t.error is None, "cached", "koreo.cache.prepare_and_cache", lambda: f"{kind} '{name}' {text()}: raises {t.error}"[:600]):
                    continue
                got = s.ip.force(s.call("koreo.cache.get_resource_from_cache", resource_class=s.get(PREPARERS[kind][1]), cache_key=key))
                later.check(s.kind(got) == s.kind(t.out), "cached", "koreo.cache.get_resource_from_cache", lambda: f"{kind} '{name}' {text()}: offered gives {s.out(t.out)}, looked up {s.out(got)}"[:600])
    return body


def scenarios(chk, tier):
    J = lambda body, label, rule, where: lambda rec: judged(rec, body, rule, label, construct=where)
    deep = tier != "quick"
    for kind in SPECS:
        where = PREPARERS[kind][0]
        yield f"root-{kind}", J(roots(kind), f"{kind} specs of any type", "raises", where)
        for name in SPECS[kind]:
            stride = 1 if deep else 2
            n = sum(1 for _ in confusions(SPECS[kind][name], CONFUSED, stride))
            of = max(1, n // 100)
            for part in range(of):
                yield f"corrupt-{kind}-{name}:{part}", J(corrupt(kind, name, part, of, stride), f"{kind} '{name}' confused", "raises", where)
            yield f"bigint-{kind}-{name}", J(bigints(kind, name), f"{kind} '{name}' with large integers", "bigint" if kind == "FunctionTest" else "raises", where)
            if deep:
                m = sum(1 for _ in confusions(SPECS[kind][name], FEW))
                stride = max(1, m * m // 600)
                for part in range(min(8, stride)):
                    yield f"pairs-{kind}-{name}:{part}", J(pairs(kind, name, part, 8, stride), f"{kind} '{name}' confused twice", "raises", where)
        of = 4 if deep else 8
        for part in range(of):
            if deep or part == 0:
                yield f"cached-{kind}:{part}", J(cached(kind, part, of), f"{kind} through the cache", "cached", where)
    of = 32 if deep else 8
    for part in range(of):
        yield f"apis:{part}", J(apis(part, of, deep), "apiConfig texts", "raises", PREPARERS["ResourceFunction"][0])
    for part in range(4):
        yield f"templates:{part}", J(templates(part, 4), "template names", "raises", PREPARERS["FunctionTest"][0])
        yield f"templates-failing:{part}", J(templates(part, 4, True), "template names", "locals", PREPARERS["FunctionTest"][0])
    every = ["=" + e for e in expressions()]
    for w, place in enumerate(PLACES):
        kind = "FunctionTest" if place.startswith("ft") else {"v": "ValueFunction", "r": "ResourceFunction", "w": "Workflow"}[place[0]]
        where = PREPARERS[kind][0]
        single = PLACES[place][0] == 1
        mine = every if deep and place == "vf-locals" else every[::3] if place == "vf-locals" else every[w::101 if single and not deep else 37 if not deep else 25 if single else 5]
        for i in range(0, len(mine), 120):
            yield f"expr-{place}:{i}", J(expressed(place, mine[i:i + 120], parseable=True), f"expressions in {place}", "raises", where)
        odd = broken() if place == "vf-locals" or deep else broken()[w::29]
        odd = odd + every[w::211 if not deep else 53]
        for i in range(0, len(odd), 120):
            yield f"broken-{place}:{i}", J(expressed(place, odd[i:i + 120], True, parseable=False), f"broken expressions in {place}", "raises", where)
        for i, e in enumerate(LONG):
            if deep or (i - w) % 5 == 0:
                yield f"long-{place}:{i}", J(expressed(place, ["=" + e], True, limit=80), f"long expressions in {place}", "raises", where)
