"""C10  Expression failures surface as PermFail, never as crashes or leaked errors."""
from .. import cel
from ..values import *
from ..scen import *
from ..wf import mark, run_workflow, runner_text
from ..lib import json_to_cel

EXPLANATION = (
    "Error-value taint analysis from every expression evaluation to every observable: each evaluation site of value, resource and workflow reconcile is analysed with (a) an opaque "
    "expression whose result contains an error object at a chosen position (top, map value, map key, list element, nested in both, beside good data) or which raises, and (b) concrete "
    "failing expressions (operators, macros, selections, conversions, every custom function) in every syntactic context, with celpy's own error propagation modelled. On every path on "
    "which an evaluation raised or produced a value containing an error, the outcome of the Function must be PermFail naming the site, no exception may leave reconcile, and no result, "
    "published state, resource id or API payload may contain an error object or its text.")
RULES = ["contained: reconcile returns normally on every path with a failing expression",
         "permfail: the Function's (step's) outcome is PermFail",
         "named: message or location of that PermFail names the failing site",
         "no-leak: result, state, conditions, resource ids and API operations contain no error object in place of data",
         "propagates: an operand or argument that fails makes the expression using it fail (celpy's absorbing operators excepted)",
         "reached: the site is evaluated at all (anti-vacuity)"]
FLOOR = {"quick": 30000, "thorough": 50000}

VFN = "koreo.value_function.reconcile.reconcile_value_function"
RFN = "koreo.resource_function.reconcile.reconcile_resource_function"
WFN = "koreo.workflow.reconcile.reconcile_workflow"
TEXT = "ERR<boom>"
OPAQUE = "OPAQUE<x>"


# ------------------------------------------------------------------ opaque failing expressions
def shapes(err, m, l, good):
    """name -> thunk building a value with an error somewhere (m: map from pairs, l: list)."""
    k = lambda x: CStr(x)
    return {
        "top": lambda: err(),
        "map": lambda: m((k("k"), err())),
        "map-last": lambda: m((k("a"), good()), (k("b"), m()), (k("k"), err())),
        "map-first": lambda: m((k("k"), err()), (k("z"), good())),
        "map-map": lambda: m((k("a"), m((k("b"), good()), (k("c"), err())))),
        "list": lambda: l(err()),
        "list-last": lambda: l(good(), l(), err()),
        "list-list": lambda: l(l(good()), l(l(good(), err()))),
        "map-list-map": lambda: m((k("k"), l(m((k("a"), good())), m((k("j"), err()))))),
        "list-map-list": lambda: l(m((k("k"), l(good(), err())))),
        "key": lambda: m((err(), good())),
        "key-deep": lambda: m((k("a"), l(m((k("g"), good()), (err(), good()))))),
        "key-and-more": lambda: m((k("a"), good()), (err(), good()), (k("c"), good())),
        "two": lambda: m((k("a"), err()), (k("b"), err())),
        "deep": lambda: m((k("a"), m((k("b"), m((k("c"), l(l(m((k("d"), l(m((k("e"), err()))))))))))))),
        "falsy-beside": lambda: m((k("a"), CBool(False)), (k("b"), CInt(0)), (k("c"), CStr("")), (k("d"), None), (k("e"), l()), (k("f"), err())),
    }


SHAPES = tuple(shapes(None, None, None, None))
RAISES = ("celeval", "celeval-tree", "celeval-bare", "TypeError", "KeyError", "ValueError", "RecursionError", "AttributeError", "IndexError", "OverflowError", "ZeroDivisionError", "AssertionError", "NotImplementedError")


def install(s, how):
    """Every expression with the OPAQUE mark gives a value of shape `how` (or raises)."""
    ip = s.ip

    def build():
        good = lambda: CStr("good")
        err = lambda: cel.error(TEXT)

        def m(*pairs):
            d = json_to_cel(ip, ADict())
            for k, v in pairs:
                ip.dict_set(d, k, v)
            return d

        def l(*items):
            x = json_to_cel(ip, AList())
            x.items.extend(items)
            return x
        return shapes(err, m, l, good)[how]()

    def replace(v, depth=0):
        v = ip.force(v)
        if isinstance(v, str) and OPAQUE in v:
            return build()
        if isinstance(v, ADict):
            for k, x in list(ip.dict_items(v)):
                y = replace(x, depth + 1)
                if y is not x:
                    ip.dict_set(v, k, y)
            return v
        if isinstance(v, AList):
            v.items[:] = [replace(x, depth + 1) for x in v.items]
        return v

    def evaluate(ip, runner, act):
        t = runner.attrs.get("text")
        if not (isinstance(t, str) and OPAQUE in t):
            return cel.evaluate(ip, runner, act)
        if how in SHAPES:
            v = replace(cel.evaluate(ip, runner, act))
            if cel.is_error(v):
                raise AExc(v)
            return v
        if how == "celeval":
            raise AExc(cel.error(TEXT))
        if how == "celeval-tree":
            e = cel.error(TEXT, tree=runner.attrs.get("ast"))
            raise AExc(e)
        if how == "celeval-bare":
            e = cel.error(TEXT)
            e.attrs["args"] = ()
            raise AExc(e)
        ip.throw(how, TEXT)
    ip.hooks["cel_evaluate"] = evaluate


# ------------------------------------------------------------------ sites
def pred(e, kind="retry"):
    return [{"assert": "=inputs.ok == 1", "permFail": {"message": "not ok"}}, {"assert": e, kind: {"message": "m", "delay": 5} if kind == "retry" else {} if kind == "ok" else {"message": "m"}}]


def pred_msg(e, kind="retry"):
    return [{"assert": "=inputs.ok == 2", kind: {"message": e, "delay": 5} if kind == "retry" else {"message": e}}]


# site -> (function spec overrides, word that names the site)
VF_SITES = {
    "pre": lambda e: ({"preconditions": pred(e)}, "preconditions"),
    "pre-ok": lambda e: ({"preconditions": pred(e, "ok")}, "preconditions"),
    "pre-msg": lambda e: ({"preconditions": pred_msg(e)}, "preconditions"),
    "pre-skip-msg": lambda e: ({"preconditions": pred_msg(e, "skip")}, "preconditions"),
    "locals": lambda e: ({"locals": {"a": 1, "v": e}}, "locals"),
    "locals-deep": lambda e: ({"locals": {"a": {"b": [1, {"c": e}]}}}, "locals"),
    "return": lambda e: ({"return": {"v": e}}, "return"),
    "return-deep": lambda e: ({"return": {"a": 1, "b": {"c": {"d": e}, "x": "=inputs.ok"}, "z": 2}}, "return"),
    "return-list": lambda e: ({"return": {"a": 1, "b": {"l": [1, {"m": [e]}]}}}, "return"),
}


def vf_spec(site, e):
    over, word = VF_SITES[site](e)
    spec = {"locals": {"g": "=inputs.ok"}, "return": {"r": "=locals.g", "k": "v"}}
    if "locals" in over:
        over["return"] = {"r": "=locals.a"}
    spec.update(over)
    return spec, word


OVR = {"preconditions": "preconditions", "locals": "locals", "return": "return"}

RF_SITES = {
    "pre": lambda e: ({"preconditions": pred(e)}, "preconditions"),
    "pre-msg": lambda e: ({"preconditions": pred_msg(e, "permFail")}, "preconditions"),
    "locals": lambda e: ({"locals": {"a": {"b": [e]}}}, "locals"),
    "name": lambda e: ({"api": {"name": e}}, "apiConfig"),
    "namespace": lambda e: ({"api": {"namespace": e}}, "apiConfig"),
    "resource": lambda e: ({"resource": {"spec": {"a": e}}}, "resource"),
    "resource-deep": lambda e: ({"resource": {"spec": {"a": 1, "l": [{"x": [e]}], "z": 1}}}, "resource"),
    "resource-meta": lambda e: ({"resource": {"metadata": {"labels": {"x": e}}, "spec": {"a": 1}}}, "resource"),
    "resource-name": lambda e: ({"resource": {"metadata": {"name": e}, "spec": {"a": 1}}}, "resource"),
    "template": lambda e: ({"resourceTemplateRef": {"name": e}}, "resourceTemplateRef"),
    "overlay": lambda e: ({"overlays": [{"overlay": {"spec": {"a": e}}}]}, "overlays"),
    "overlay-2": lambda e: ({"overlays": [{"overlay": {"spec": {"q": 1}}}, {"overlay": {"spec": {"deep": {"l": [e]}, "n": "=resource.spec.q"}}}]}, "overlays"),
    "overlay-hidden": lambda e: ({"overlays": [{"overlay": {"spec": {"a": e}}}, {"overlay": {"spec": {"a": 5}}}]}, "overlays"),
    "overlay-meta": lambda e: ({"overlays": [{"overlay": {"metadata": {"name": e}}}]}, "overlays"),
    "skipIf": lambda e: ({"overlays": [{"skipIf": e, "overlay": {"spec": {"q": 1}}}]}, "overlays"),
    "ref-skipIf": lambda e: ({"overlays": [{"skipIf": e, "overlayRef": {"kind": "ValueFunction", "name": "good"}}]}, "overlays"),
    "ref-inputs": lambda e: ({"overlays": [{"overlayRef": {"kind": "ValueFunction", "name": "good"}, "inputs": {"ok": 1, "v": e}}]}, "overlays"),
    "ref-pre": lambda e: ({"overlays": [{"overlayRef": {"kind": "ValueFunction", "name": "bad-pre"}, "inputs": {"ok": 1, "x": "=inputs.x"}}]}, "overlays"),
    "ref-locals": lambda e: ({"overlays": [{"overlayRef": {"kind": "ValueFunction", "name": "bad-locals"}, "inputs": {"ok": 1, "x": "=inputs.x"}}]}, "overlays"),
    "ref-return": lambda e: ({"overlays": [{"overlayRef": {"kind": "ValueFunction", "name": "bad-return-deep"}, "inputs": {"ok": 1, "x": "=inputs.x"}}]}, "overlays"),
    "create": lambda e: ({"create": {"overlay": {"spec": {"c": e}}}}, "create"),
    "create-deep": lambda e: ({"create": {"overlay": {"spec": {"a": 1, "c": {"l": [[e]]}}}}}, "create"),
    "post": lambda e: ({"postconditions": pred(e)}, "postconditions"),
    "post-msg": lambda e: ({"postconditions": pred_msg(e)}, "postconditions"),
    "return": lambda e: ({"return": {"a": 1, "v": e}}, "return"),
    "return-deep": lambda e: ({"return": {"a": {"b": [{"c": e}]}, "n": "=resource.metadata.name"}}, "return"),
}
RF_STATES = ("absent", "match", "drift", "recreate")
LATE = ("post", "post-msg", "return", "return-deep")     # only evaluated once the object meets its target
EARLY = ("create", "create-deep")                        # only evaluated when the object is created


def rf_build(s, site, e):
    over, word = RF_SITES[site](e)
    if site.startswith("ref-"):
        s.cache("ValueFunction", "good", {"return": {"spec": {"g": 1}}})
        for b in ("pre", "locals", "return-deep"):
            if site[4:] in b:
                s.cache("ValueFunction", f"bad-{b}", vf_spec(b, e)[0])
    if site == "template":
        s.cache("ResourceTemplate", "good", {"template": {"apiVersion": "test.koreo.dev/v1", "kind": "Thing", "spec": {"a": 1}}})
    return over, word


def reached(site, state):
    if site in LATE:
        return state == "match"
    if site in EARLY:
        return state == "absent"
    return True


INPUTS = {"ok": 1, "x": {}}


def rf_cluster(s, state, site):
    c = Cluster(s.ip)
    o = {"apiVersion": "test.koreo.dev/v1", "kind": "Thing", "metadata": {"name": "thing-1", "namespace": "ns1", "uid": "u"}, "spec": {"a": 1, "b": "two"}}
    if state in ("drift", "recreate"):
        o["spec"] = {"a": 7}
    if state != "absent":
        c.put("things", "ns1", "thing-1", o)
    return c


def prepared(s, kind, spec):
    """The prepared resource; what prepare refuses (or fails on) is not evaluated (C20 judges prepare)."""
    try:
        return s.prepare(kind, "x", spec)[0]
    except AExc as e:
        raise PrepareFailed(repr(e.value))


# ------------------------------------------------------------------ judging
def failures(s, events):
    """Evaluations that raised or whose value contains an error."""
    out = []
    for e in events:
        if e.kind == "evaluate" and (e.data.get("exc") is not None or ("result" in e.data and e.data.get("failed"))):
            out.append(e)
    return out


def leak(s, v):
    """An error object, or its text, inside data."""
    e = s.error_inside(v)
    if e is not None:
        return repr(e)
    t = repr(freeze(s.ip, v))
    return t if TEXT in t or "CELEvalError(" in t else None


def api_leak(s, events):
    for e in events:
        if e.kind == "api":
            for k in ("payload", "name", "names", "namespace"):
                v = e.data.get(k)
                if v is not None:
                    x = leak(s, AList(list(v)) if isinstance(v, (list, tuple)) else v)
                    if x:
                        return e, x
    return None, None


def judge_function(rec, p, R, what, word, s, out, rid, failed, must=None, rule="reached"):
    ip = s.ip
    e, x = api_leak(s, p.events)
    rec.check(e is None, "no-leak", R, lambda: f"{what}: {e.data['op']} sends {x}", p, event=e)
    if rid is not None:
        x2 = leak(s, rid)
        rec.check(x2 is None, "no-leak", R, lambda: f"{what}: the resource id contains {x2}", p)
    k = s.kind(out)
    if failed:
        if rec.check(k == "PermFail", "permfail", R, lambda: f"{what}: the outcome is {s.out(out)}", p, event=failed[0]):
            msg, loc = s.text(s.attr(out, "message")), s.text(s.attr(out, "location"))
            rec.check(word in f"{msg} {loc}", "named", R, lambda: f"{what}: the PermFail names neither {word!r}: {msg!r} at {loc!r}", p, event=failed[0])
    if k in ("value", "Ok"):
        x3 = leak(s, s.attr(out, "data") if k == "Ok" else out)
        rec.check(x3 is None, "no-leak", R, lambda: f"{what}: the value returned contains {x3}", p)
    elif k in ("Retry", "PermFail"):
        rec.check(s.error_inside(AList([s.attr(out, "message"), s.attr(out, "location")])) is None, "no-leak", R, lambda: f"{what}: an error object is the message", p)
    if must is not None:
        rec.check(bool(failed) == must, rule, R, lambda: f"{what}: " + ("no evaluation fails" if must else "an evaluation fails"), p)


def watch(s):
    """Notes, at the time of each evaluation, whether its value contains an error."""
    ip = s.ip
    h = ip.hooks["cel_evaluate"]

    def evaluate(ip, runner, act):
        e = next((x for x in reversed(ip.events) if x.kind == "evaluate"), None)
        v = h(ip, runner, act)
        if e is not None:
            e.data["failed"] = s.error_inside(v) is not None
        return v
    ip.hooks["cel_evaluate"] = evaluate


def vf_case(s, site, e, how=None):
    spec, word = vf_spec(site, e)
    fn = prepared(s, "ValueFunction", spec)
    if how:
        install(s, how)
    watch(s)
    base = bool(s.ip.choose(2, "base")) if site.startswith("return") and how else False
    n = len(s.ip.events)
    kw = {"value_base": s.cel({"v": 1, "b": {"c": {}}})} if base else {}
    r = s.call(VFN, location="loc", function=fn, inputs=s.cel(INPUTS), **kw)
    return r, None, word, failures(s, s.ip.events[n:])


def rf_case(s, site, state, e, how=None):
    try:
        over, word = rf_build(s, site, e)
    except AExc as x:
        raise PrepareFailed(repr(x.value))
    if state == "recreate":
        over["update"] = {"recreate": {"delay": 5}}
    if site == "resource" and state == "match":
        pass
    fn = prepared(s, "ResourceFunction", rf_spec(**over))
    c = rf_cluster(s, state, site)
    if how:
        install(s, how)
    watch(s)
    n = len(s.ip.events)
    r, rid = reconcile_rf(s, fn, c, INPUTS)
    return r, rid, word, failures(s, s.ip.events[n:])


def crashed(rec, p, R, what):
    if p.error:
        x = p.error[1]
        if isinstance(x, PrepareFailed) or p.error[0] == "PrepareFailed":
            return True
        rec.check(False, "contained", R, lambda: f"{what}: {p.error[0]} {getattr(x, 'value', x)!r} leaves reconcile", p, stack=getattr(x, "trace", None))
        return True
    rec.check(True, "contained", R, None, p)
    return False


def opaque_vf(site):
    def run(rec):
        hows = SHAPES + RAISES

        def scen(s):
            how = hows[s.ip.choose(len(hows), "how")]
            return (how,) + vf_case(s, site, f"='{OPAQUE}'" if "pre" not in site or "msg" in site else f"='{OPAQUE}' == 'x'", how)
        for p in rec.explore(scenario(rec.chk, scen)):
            what = f"ValueFunction {site}: opaque expression"
            if crashed(rec, p, VFN, what):
                continue
            s, (how, out, rid, word, failed) = p.outcome
            # a failing assert is not part of the value a predicate list evaluates to
            judge_function(rec, p, VFN, f"{what} {how}", word, s, out, rid, failed, True if how in RAISES or "pre" not in site or "msg" in site else None)
    return run


def opaque_rf(site, states):
    def run(rec):
        hows = SHAPES + RAISES

        def scen(s):
            how = hows[s.ip.choose(len(hows), "how")]
            state = states[s.ip.choose(len(states), "state")]
            msg = site not in ("pre", "post")
            return (how, state) + rf_case(s, site, state, f"='{OPAQUE}'" if msg else f"='{OPAQUE}' == 'x'", how)
        for p in rec.explore(scenario(rec.chk, scen)):
            what = f"ResourceFunction {site}: opaque expression"
            if crashed(rec, p, RFN, what):
                continue
            s, (how, state, out, rid, word, failed) = p.outcome
            must = reached(site, state) if how in RAISES or site not in ("pre", "post") else None
            judge_function(rec, p, RFN, f"{what} {how}, object {state}", word, s, out, rid, failed, must)
    return run


# ------------------------------------------------------------------ concrete failing expressions
FRAGMENTS = (
    "inputs.absent", "inputs.absent.deeper", "1 + 'a'", "1/0", "1 % 0", "nosuch", "nosuch.x", "int('x')", "double('x')", "'a'.matches('[')", "{'a':1}['b']",
    "[1].to_ref()", "{}.to_ref()", "{}.self_ref()", "{}.group_ref()", "{}.kindless_ref()", "{}.overlay(5)", "(5).overlay({'a': 1})", "[5].flatten()", "(5).lower()", "'a'.split('')",
    "(5).split('a')", "'a'.split(5)", "'a'.split_first('')", "'a'.split_last('')", "'a'.split_index('b',9)", "'a'.split_index('b','c')", "'a'.strip(5)", "'a'.rstrip(5)", "'x{'.from_json()",
    "(5).from_json()", "(5).b64encode()", "(5).replace('a','b')", "'a'.replace(5,'b')", "inputs.x == {}.absent", "-'a'", "{'status':5}.config_connect_ready()",
    "{'status':{'conditions':[5]}}.config_connect_ready()", "{'metadata':5,'apiVersion':'v1','kind':'K'}.self_ref()", "9223372036854775807 + 1", "-9223372036854775807 - 5", "size(5)", "lower()", "lower('a','b')",
    "{}.lower()", "[1,2][5]", "inputs.x['k']", "'a' < 1", "inputs.ok.foo", "inputs.ok[0]",
)
# failures of the language itself: an expression of these is a failing expression whatever custom functions do
CORE = ("inputs.absent", "inputs.absent.deeper", "1 + 'a'", "1/0", "1 % 0", "nosuch", "nosuch.x", "int('x')", "{'a':1}['b']", "inputs.x['k']", "inputs.ok.foo")
CONTEXTS = {
    "plain": "{}", "list": "[1, [{}]]", "map": "{{'k': {{'j': {}}}}}", "map-macro": "[1].map(x, {})", "map-macro2": "[1].map(x, {{'a': {}}})", "filter": "[1].filter(x, {})", "all": "[1].all(x, {})",
    "exists": "[1].exists(x, {})", "exists1": "[1].exists_one(x, {})", "cond": "({}) ? 1 : 2", "branch": "true ? ({}) : 2", "arg": "size({})", "eq": "({}) == 1", "eqr": "1 == ({})",
    "lt": "({}) < 1", "in": "({}) in [1]", "inr": "1 in ({})", "add": "({}) + 1", "listadd": "[{}] + [1]", "and": "true && ({})", "or": "false || ({})", "not": "!({})",
    "index": "[1,2][{}]", "key": "{{({}): 1}}", "recv": "({}).foo", "idx": "({})['foo']", "nested-macro": "[[1]].map(y, y.map(x, {}))", "map-in-filter": "[1].filter(x, [{}] == [1])",
    "~dot": "{{'a': {}, 'b': 1}}.b", "listidx": "[1, {}][0]", "macro-range": "({}).map(x, x)", "macro-range2": "[{}].map(x, 1)",
    # custom functions
    "overlay": "{{'a':1}}.overlay({{'b': {}}})", "overlay-deep": "{{'a':{{'b':1}}}}.overlay({{'a': {{'c': [{}]}}}})", "overlay-base": "{{'a': {}}}.overlay({{'b': 1}})", "overlay-err": "{{'a':1}}.overlay({})",
    "to_json": "[{}].to_json()", "flatten": "[[{}]].flatten()", "flatten2": "[[1], {}].flatten()", "to_ref": "{{'name': {}}}.to_ref()", "to_ref2": "{{'apiVersion': 'v1', 'kind': 'K', 'name': {}}}.to_ref()",
    "to_ref3": "{{'external': {}}}.to_ref()", "self_ref": "{{'apiVersion': 'v1', 'kind': 'K', 'metadata': {{'name': {}, 'namespace': 'n'}}}}.self_ref()", "group_ref": "{{'apiVersion': 'g/v1', 'kind': {}, 'name': 'n'}}.group_ref()",
    "kindless_ref": "{{'apiVersion': 'g/v1', 'kind': 'k', 'name': {}}}.kindless_ref()", "lower": "({}).lower()", "strip": "'a'.strip({})", "rstrip": "'a'.rstrip({})", "split": "'a'.split({})", "split-recv": "({}).split('a')",
    "split_first": "'a'.split_first({})", "split_last": "'a'.split_last({})", "split_index": "'a-b'.split_index('-', {})", "replace": "'a'.replace('a', {})", "b64encode": "({}).b64encode()", "b64decode": "({}).b64decode()",
    "from_json": "({}).from_json()", "ready": "{{'status': {}}}.config_connect_ready()",
    # celpy absorbs the failure: the expression itself does not fail
    "~string": "string({})", "~type": "type({})", "~eqmap": "{{'a': {}}} == {{}}", "~inmap": "'a' in {{'b': {}}}", "~overlaid": "{{'b': {}}}.overlay({{'b': 1}})", "~short-or": "true || ({})", "~short-and": "false && ({})",
    "~has": "has({{'a': {}}}.b)", "~sizel": "size([{}])", "~inlist": "1 in [{}]", "~branch": "true ? 2 : ({})", "~ready2": "{{'status': {{'conditions': [{{'type': 'Ready', 'status': {}}}]}}}}.config_connect_ready()",
}
SITE_FRAGMENTS = ("inputs.absent", "1/0", "nosuch.x", "{}.to_ref()", "(5).lower()", "'a'.split('')", "'x{'.from_json()", "[].flatten() == 1 + 'a'")
SITE_CONTEXTS = ("plain", "list", "map", "map-macro", "map-macro2", "nested-macro", "key", "overlay", "flatten", "~string", "eq")


def concrete_vf(frags):
    def run(rec):
        ctx = list(CONTEXTS.items())

        def scen(s):
            f = frags[s.ip.choose(len(frags), "fragment")]
            n, c = ctx[s.ip.choose(len(ctx), "context")]
            e = "=" + c.format(f)
            return (f, n, e) + vf_case(s, "return", e)
        for p in rec.explore(scenario(rec.chk, scen)):
            if crashed(rec, p, VFN, "ValueFunction return: failing expression"):
                continue
            s, (f, n, e, out, rid, word, failed) = p.outcome
            must = True if n == "plain" or f in CORE and not n.startswith("~") else None
            judge_function(rec, p, VFN, f"ValueFunction return {e!r} -> {s.out(out)}", word, s, out, rid, failed, must, "propagates")
    return run


def concrete_sites(kind, site, states=(None,)):
    def run(rec):
        R = VFN if kind == "vf" else RFN

        def scen(s):
            f = SITE_FRAGMENTS[s.ip.choose(len(SITE_FRAGMENTS), "fragment")]
            n = SITE_CONTEXTS[s.ip.choose(len(SITE_CONTEXTS), "context")]
            st = states[s.ip.choose(len(states), "state")]
            e = "=" + CONTEXTS[n].format(f)
            return (e, st) + (vf_case(s, site, e) if kind == "vf" else rf_case(s, site, st, e))
        for p in rec.explore(scenario(rec.chk, scen)):
            if crashed(rec, p, R, f"{site}: failing expression"):
                continue
            s, (e, st, out, rid, word, failed) = p.outcome
            judge_function(rec, p, R, f"{site} {e!r}, object {st}", word, s, out, rid, failed)
    return run


# ------------------------------------------------------------------ workflow
WF_SITES = ("inputs", "inputs-deep", "skipIf", "itemIn", "itemIn-list", "switchOn", "switch-inputs", "forEach-inputs", "forEach-skipIf", "state", "state-deep", "forEach-state", "sub-inputs", "sub-state",
            "vf-return", "vf-locals", "vf-pre", "rf-return", "rf-resource", "rf-name", "forEach-vf-return", "sub-vf-return", "switch-vf-return")


def wf_build(s, site, e):
    vf = lambda n, **k: s.cache("ValueFunction", n, {"return": {"v": 1, "l": [1]}, **k})
    vf("good")
    ref = lambda n="good", k="ValueFunction": {"kind": k, "name": n}
    t = {"label": "target", "ref": ref(), "inputs": {"ok": 1, "x": "=parent.x"}}
    word = "target"
    if "vf-" in site:
        s.cache("ValueFunction", "bad", vf_spec(site.split("vf-")[1], e)[0])
        if site.startswith("vf-"):
            t["ref"] = ref("bad")
        if site.startswith("forEach-"):
            t.update({"ref": ref("bad"), "forEach": {"itemIn": "=[1, 2]", "inputKey": "i"}})
    if site.startswith("rf-"):
        over, w = rf_build(s, site[3:], e)
        s.cache("ResourceFunction", "bad-rf", rf_spec(**over))
        t["ref"], word = ref("bad-rf", "ResourceFunction"), (word, w)
    if site == "inputs":
        t["inputs"] = {"a": e}
    elif site == "inputs-deep":
        t["inputs"] = {"ok": 1, "a": {"b": [{"c": e}]}}
    elif site == "skipIf":
        t["skipIf"] = e
    elif site == "itemIn":
        t["forEach"] = {"itemIn": e, "inputKey": "i"}
    elif site == "itemIn-list":
        t["forEach"] = {"itemIn": f"=[1, {e[1:]}]", "inputKey": "i"}
    elif site in ("switchOn", "switch-inputs", "switch-vf-return"):
        del t["ref"]
        t["refSwitch"] = {"switchOn": e if site == "switchOn" else "='a'", "cases": [{"case": "a", **ref("bad" if site == "switch-vf-return" else "good")}, {"case": "b", "default": True, **ref()}]}
        if site == "switch-inputs":
            t["inputs"] = {"a": e}
    elif site == "forEach-inputs":
        t.update({"forEach": {"itemIn": "=[1, 2]", "inputKey": "i"}, "inputs": {"a": e}})
    elif site == "forEach-skipIf":
        t.update({"forEach": {"itemIn": "=[1, 2]", "inputKey": "i"}, "skipIf": e})
    elif site == "state":
        t["state"] = {"good": 1, "s": e}
    elif site == "state-deep":
        t["state"] = {"s": {"a": [{"b": e}]}}
    elif site == "forEach-state":
        t.update({"forEach": {"itemIn": "=[1, 2]", "inputKey": "i"}, "state": {"s": e}})
    elif site.startswith("sub-"):
        inner = {"label": "inner", "ref": ref("bad" if site == "sub-vf-return" else "good"), "inputs": {"ok": 1, "x": "=parent.x"}, "state": {"n": "=value"}}
        if site == "sub-inputs":
            inner["inputs"] = {"a": e}
        if site == "sub-state":
            inner["state"] = {"n": e}
        s.cache("Workflow", "sub", {"steps": [inner]})
        t["ref"] = ref("sub", "Workflow")
        word = (word, "inner")
    t.setdefault("state", {"t": "=value"})
    t["condition"] = {"type": "Target", "name": "t"}
    wf = prepared(s, "Workflow", {"steps": [t, {"label": "use", "ref": ref(), "inputs": {"u": "=steps.target"}, "state": {"u": "=value"}},
                                                 {"label": "other", "ref": ref(), "state": {"o": "=value"}}]})
    return wf, word


def wf_case(s, site, e, how=None):
    try:
        wf, word = wf_build(s, site, e)
    except AExc as x:
        raise PrepareFailed(repr(x.value))
    c = rf_cluster(s, "match", site)
    if how:
        install(s, how)
    watch(s)
    n = len(s.ip.events)
    r = run_workflow(s, wf, c, INPUTS)
    return r, word, failures(s, s.ip.events[n:])


def judge_wf(rec, p, site, what, s, r, word, failed, must):
    ip = s.ip
    state, errors, res, conds, ids = (s.attr(r, k) for k in ("state", "state_errors", "result", "conditions", "resource_ids"))
    ev, x = api_leak(s, p.events)
    rec.check(ev is None, "no-leak", WFN, lambda: f"{what}: {ev.data['op']} sends {x}", p, event=ev)
    for n, v in (("state", state), ("resource_ids", ids)) + ((("result", res),) if s.kind(res) == "value" else ()):
        x = leak(s, v)
        rec.check(x is None, "no-leak", WFN, lambda: f"{what}: {n} contains {x}", p)
    rec.check(s.error_inside(AList([errors, conds])) is None, "no-leak", WFN, lambda: f"{what}: conditions or state_errors contain an error object", p)
    st = plain(ip, state)
    if failed:
        if site in ("state", "state-deep", "forEach-state"):
            er = {ip.force(k): freeze(ip, v) for k, v in ip.dict_items(ip.force(errors))}
            rec.check(any("target" in str(k) for k in er) and not ("s" in st or "good" in st), "permfail", WFN, lambda: f"{what}: state is {st}, state_errors {er}", p, event=failed[0])
        elif site == "sub-state":
            rec.check("n" not in repr(st.get("t")), "permfail", WFN, lambda: f"{what}: state is {st}", p, event=failed[0])
        else:
            rec.check(s.kind(res) == "PermFail", "permfail", WFN, lambda: f"{what}: the overall outcome is {s.out(res)}", p, event=failed[0])
            texts = " ".join(str(s.text(s.attr(res, k))) for k in ("message", "location")) if s.kind(res) == "PermFail" else ""
            rec.check(any(w in texts for w in ([word] if isinstance(word, str) else word)), "named", WFN, lambda: f"{what}: the outcome does not name the step: {texts!r}", p)
            rec.check("t" not in st and "u" not in st, "no-leak", WFN, lambda: f"{what}: the failing step publishes state {st}", p)
        rec.check("o" in st, "contained", WFN, lambda: f"{what}: an unrelated step does not finish: state {st}", p)
    if must is not None:
        rec.check(bool(failed) == must, "reached", WFN, lambda: f"{what}: " + ("no evaluation fails" if must else "an evaluation fails"), p)


def opaque_wf(site):
    def run(rec):
        hows = SHAPES + RAISES

        def scen(s):
            how = hows[s.ip.choose(len(hows), "how")]
            e = f"='{OPAQUE}' == 'x'" if site.endswith("pre") else f"='{OPAQUE}'"
            return (how,) + wf_case(s, site, e, how)
        for p in rec.explore(scenario(rec.chk, scen)):
            if crashed(rec, p, WFN, f"Workflow {site}: opaque expression"):
                continue
            s, (how, r, word, failed) = p.outcome
            judge_wf(rec, p, site, f"Workflow {site}: opaque expression {how}", s, r, word, failed, True if how in RAISES or not site.endswith("pre") else None)
    return run


def concrete_wf(site):
    def run(rec):
        def scen(s):
            f = SITE_FRAGMENTS[s.ip.choose(len(SITE_FRAGMENTS), "fragment")]
            f = f.replace("inputs.", "parent.") if "vf-" not in site and "rf-" not in site else f
            n = SITE_CONTEXTS[s.ip.choose(len(SITE_CONTEXTS), "context")]
            e = "=" + CONTEXTS[n].format(f)
            return (e,) + wf_case(s, site, e)
        for p in rec.explore(scenario(rec.chk, scen)):
            if crashed(rec, p, WFN, f"Workflow {site}: failing expression"):
                continue
            s, (e, r, word, failed) = p.outcome
            judge_wf(rec, p, site, f"Workflow {site} {e!r}", s, r, word, failed, None)
    return run


def scenarios(chk, tier):
    for site in VF_SITES:
        yield f"opaque-vf:{site}", opaque_vf(site)
        yield f"concrete-vf:{site}", concrete_sites("vf", site)
    for site in RF_SITES:
        states = RF_STATES if tier == "thorough" else ("match", "absent") if site in LATE + EARLY else ("absent", "drift")
        yield f"opaque-rf:{site}", opaque_rf(site, states)
        for st in (states if tier == "thorough" else states[:1]):
            yield f"concrete-rf:{site}:{st}", concrete_sites("rf", site, (st,))
    for site in WF_SITES:
        yield f"opaque-wf:{site}", opaque_wf(site)
        yield f"concrete-wf:{site}", concrete_wf(site)
    for i in range(0, len(FRAGMENTS), 5):
        yield f"fragments:{i}", concrete_vf(FRAGMENTS[i:i + 5])
