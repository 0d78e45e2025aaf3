"""ResourceFunction building blocks: targets, live objects, the reference reading of "meets the target"."""
import copy
import json

from .values import *
from .scen import *
from .lib import NotHost

RFN = "koreo.resource_function.reconcile.reconcile_resource_function"
KRM = "koreo.resource_function.reconcile.reconcile_krm_resource"
SET, MAP, LAST = "x-koreo-compare-as-set", "x-koreo-compare-as-map", "x-koreo-compare-last-applied"
DIRECTIVES = (SET, MAP, LAST)
ANNOTATION = "koreo.dev/last-applied-configuration"
IDENTITY = {"apiVersion": "test.koreo.dev/v1", "kind": "Thing", "metadata": {"name": "thing-1", "namespace": "ns1"}}

TARGETS = {
    "scalars": {"spec": {"s": "two", "e": "", "i": 1, "z": 0, "neg": -7, "t": True, "f": False, "d": 2.5, "long": "a b  c"}},
    "nested": {"spec": {"m": {"k": {"x": "a", "y": 1}, "e": {}}, "em": {}, "el": []}, "metadata": {"labels": {"app": "x", "tier": "y"}, "annotations": {"note": "n"}}},
    "lists": {"spec": {"l": ["a", "b"], "lm": [{"n": "x", "v": 1}, {"n": "y", "v": 0}], "ll": [[1, 2], [3], []], "bools": [True, False], "mixed": ["a", 1, False, {"k": []}]}},
    "set": {"spec": {SET: ["s", "n"], "s": ["a", "b", "c"], "n": [1, 2, 3], "plain": [1, 2]}},
    "set-deep": {"spec": {"groups": [{SET: ["s"], "s": ["a", "b"], "g": 1}, {"s": ["a", "b"], "g": 2}], "inner": {"x": {SET: ["b"], "b": [True, False], "keep": ["p", "q"]}}}},
    "map": {"spec": {MAP: {"ports": ["name"], "pairs": ["k", "j"]}, "ports": [{"name": "http", "port": 80, "tags": ["a", "b"]}, {"name": "dns", "port": 53, "tags": []}],
                     "pairs": [{"k": "a", "j": 1, "v": "one"}, {"k": "a", "j": 2, "v": "two"}, {"k": "b", "j": 1, "v": ""}]}},
    "map-deep": {"spec": {"tmpl": {MAP: {"c": ["name"]}, "c": [{"name": "m", MAP: {"env": ["name"]}, SET: ["args"], "args": ["-v", "-q"], "env": [{"name": "A", "value": "1x"}, {"name": "B", "value": "2x"}]}]}}},
    "last": {"spec": {LAST: ["secret", "obj"], "secret": "pw", "obj": {"a": 1}, "plain": "x"}},
}

# Keys of map-directed lists which are different, but easily taken for one another.
MAP_KEYS = {MAP: {"pairs": ["k", "j"], "cases": ["k"], "kinds": ["k"], "gaps": ["k", "j"]},
            "pairs": [{"k": k, "j": j, "v": f"{k}-{j}"} for k, j in (("a", "bc"), ("ab", "c"), ("", "x"), ("x", ""), ("a$b", "c"), ("a", "b$c"), ("a,b", "c"), ("a", "b,c"))],
            "cases": [{"k": k, "v": f"v{i}"} for i, k in enumerate(("web", "Web", "we-b", "web ", "we b"))],
            "kinds": [{"k": k, "v": f"v{i}"} for i, k in enumerate((80, True, "True", "None", None))],
            "gaps": [{"k": "a", "v": "x1"}, {"j": "a", "v": "x2"}, {"k": "a", "j": "a", "v": "x3"}]}


def full_target(doc, identity=IDENTITY):
    out = copy.deepcopy(doc)
    return deep_merge(out, identity)


def deep_merge(base, over):
    out = dict(base)
    for k, v in over.items():
        if isinstance(v, dict) and v and isinstance(out.get(k), dict):
            out[k] = deep_merge(out[k], v)
        else:
            out[k] = copy.deepcopy(v)
    return out


def strip(doc):
    if isinstance(doc, dict):
        return {k: strip(v) for k, v in doc.items() if k not in DIRECTIVES}
    if isinstance(doc, list):
        return [strip(x) for x in doc]
    return doc


def leaf_equal(a, b):
    if isinstance(a, bool) or isinstance(b, bool):
        return type(a) is type(b) and a == b
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return a == b
    return type(a) is type(b) and a == b


def key_of(o, fields):
    return tuple(json.dumps(o.get(f), sort_keys=True) if isinstance(o, dict) else None for f in fields)


def meets(target, live, root=True):
    """Reference: the live document contains every field of the target with an equal value (last-applied keys are not compared)."""
    if isinstance(target, dict):
        if not isinstance(live, dict):
            return False
        sets, maps, last = target.get(SET, ()), target.get(MAP, {}), target.get(LAST, ())
        for k, v in target.items():
            if k in DIRECTIVES or k in last or k == ANNOTATION:
                continue
            if k not in live:
                if v is None:
                    continue
                return False
            w = live[k]
            if k in sets and isinstance(v, list) and isinstance(w, list):
                if {json.dumps(x) for x in v} != {json.dumps(x) for x in w}:
                    return False
            elif k in maps and isinstance(v, list) and isinstance(w, list):
                if any(not isinstance(x, dict) for x in w):
                    return False
                have = {key_of(x, maps[k]): x for x in w}
                if not all(key_of(x, maps[k]) in have and meets(x, have[key_of(x, maps[k])], False) for x in v):
                    return False
                if not v and w:
                    return False
            elif not meets(v, w, False):
                return False
        return True
    if isinstance(target, list):
        return isinstance(live, list) and len(live) == len(target) and all(meets(a, b, False) for a, b in zip(target, live))
    return leaf_equal(target, live)


def with_extras(doc, salt="zz"):
    """Things the server or other actors add: unknown fields at every map level."""
    if isinstance(doc, dict):
        out = {k: with_extras(v, salt) for k, v in doc.items()}
        out[salt + "Added"] = {"by": "server", "n": 1, "l": [1]}
        out["a" + salt] = ""
        return out
    if isinstance(doc, list):
        return [with_extras(x, salt) for x in doc]
    return doc


def shuffled(doc, how):
    """Set- and map-directed lists in another order."""
    if isinstance(doc, dict):
        out = {k: shuffled(v, how) for k, v in doc.items()}
        for k in list(doc.get(SET, ())) + list(doc.get(MAP, {})):
            if isinstance(out.get(k), list):
                out[k] = out[k][::-1] if how == 0 else out[k][1:] + out[k][:1]
        return out
    if isinstance(doc, list):
        return [shuffled(x, how) for x in doc]
    return doc


def live_from(doc, **meta):
    o = strip(full_target(doc))
    o["metadata"] = {**o["metadata"], "uid": "live-uid", "resourceVersion": "77", **meta}
    return o


# ---------------------------------------------------------------- perturbations
REPL = ["other", "", 0, 1, 5, -1, False, True, None, [], {}, ["other"], {"q": 1}, "1", "0", "true", 2.25]


def paths(doc, at=()):
    """(path, node, parent, directive info) of everything a target specifies."""
    if isinstance(doc, dict):
        for k, v in doc.items():
            if k in DIRECTIVES or k in doc.get(LAST, ()):
                continue
            kind = "set" if k in doc.get(SET, ()) else "map" if k in doc.get(MAP, {}) else None
            yield at + (k,), v, kind
            if kind != "set":
                yield from paths(v, at + (k,))
    elif isinstance(doc, list):
        for i, v in enumerate(doc):
            yield at + (i,), v, None
            yield from paths(v, at + (i,))


def edit(doc, path, fn):
    """Copy of doc with fn(parent, key) applied."""
    out = copy.deepcopy(doc)
    cur = out
    for k in path[:-1]:
        cur = cur[k]
    fn(cur, path[-1])
    return out


def setter(v):
    def f(parent, k):
        parent[k] = copy.deepcopy(v)
    return f


def remover(parent, k):
    del parent[k]


def perturbations(doc):
    """(description, live) for every way one thing the target specifies differs in the live object."""
    target = full_target(doc)
    base = live_from(doc)
    out = []

    def add(desc, live):
        md = live.get("metadata")
        if not isinstance(md, dict) or md.get("name") != "thing-1" or md.get("namespace") != "ns1" or any(not isinstance(md.get(k, {}), (dict, type(None))) for k in ("labels", "annotations")):
            return      # no API server returns such an object
        if not meets(target, live):
            out.append((desc, live))
    for path, node, kind in paths(doc):
        name = "/".join(map(str, path))
        if isinstance(path[-1], str):
            add(f"{name} removed", edit(base, path, remover))
        vals = list(REPL)
        if isinstance(node, str):
            vals += [node + "x", node.upper(), node + " "]
        if isinstance(node, bool):
            vals += [not node, str(node).lower(), int(node)]
        elif isinstance(node, (int, float)):
            vals += [node + 1, -node, str(node)]
        for v in vals:
            add(f"{name} = {v!r}", edit(base, path, setter(v)))
        if isinstance(node, list):
            plain = strip(node)
            alts = [plain + ["zz"], plain + [9], plain + [None], plain[:-1], plain[1:], plain[::-1], plain + plain[-1:], plain * 2, [plain], ["zz"] + plain[1:], plain[:-1] + [0],
                    [str(x) for x in plain], [bool(x) if not isinstance(x, (dict, list)) else x for x in plain], [int(x) if isinstance(x, bool) else x for x in plain]]
            for v in alts:
                add(f"{name} = {v!r}", edit(base, path, setter(v)))
        if isinstance(node, dict) and node:
            for v in ([node], list(strip(node).items())[0][0], {k: None for k in strip(node)}):
                add(f"{name} = {v!r}", edit(base, path, setter(strip(v) if not isinstance(v, str) else v)))
    seen, uniq = set(), []
    for d, l in out:
        k = json.dumps(l, sort_keys=True)
        if k not in seen:
            seen.add(k)
            uniq.append((d, l))
    return uniq


# ---------------------------------------------------------------- running
class Pass:
    """One reconcile pass: outcome class, value/message/delay and what it sent."""

    def __init__(self, kind, out, muts, calls, error=None):
        self.kind, self.out, self.muts, self.calls, self.error = kind, out, muts, calls, error
        self.ops = [e.data["op"] for e in muts]

    def __repr__(self):
        return f"<{self.kind} {self.ops}{' raises ' + str(self.error) if self.error else ''}>"


def one_pass(s, fn, cluster, inputs, own=None):
    ip = s.ip
    n = len(ip.events)
    try:
        o = reconcile_rf(s, fn, cluster, inputs, own)[0]
        kind, out, error = s.kind(o), o, None
    except AExc as e:
        kind, out, error = "raise", None, exc_text(ip, e)
    evs = ip.events[n:]
    return Pass(kind, out, mutations(evs), api_calls(evs), error)


def exc_text(ip, e):
    v = getattr(e, "value", e)
    cls = getattr(getattr(v, "cls", None), "name", type(v).__name__)
    args = v.attrs.get("args") if isinstance(v, AInst) else ()
    return f"{cls}{args!r}"


def stored(s, cluster, name="thing-1", ns="ns1", endpoint="things"):
    o = cluster.find(endpoint, ns, name)
    return None if o is None else wire(s.ip, o)


def payload_of(s, e):
    return wire(s.ip, e.data["payload"])


def without_annotation(doc):
    """(document without the last-applied annotation, annotation text)"""
    doc = copy.deepcopy(doc)
    text = doc.get("metadata", {}).get("annotations", {}).pop(ANNOTATION, None) if isinstance(doc.get("metadata"), dict) and isinstance(doc["metadata"].get("annotations"), dict) else None
    return doc, text


def tidy(doc):
    """Drop an empty annotations map (an artefact of removing the annotation)."""
    doc = copy.deepcopy(doc)
    md = doc.get("metadata")
    if isinstance(md, dict) and md.get("annotations") == {}:
        del md["annotations"]
    return doc


def batches(items, n):
    for i in range(0, len(items), n):
        yield items[i:i + n]


class Later:
    """Obligations collected on a path, judged once the path is known to be modelled exactly."""

    def __init__(self):
        self.items = []

    def check(self, cond, rule, construct, text, path=None, event=None, stack=None):
        self.items.append((bool(cond), rule, construct, None if cond else (text() if callable(text) else text), event, stack))
        return cond

    def apply(self, rec, p):
        for c, rule, con, text, ev, st in self.items:
            rec.check(c, rule, con, text, p, event=ev, stack=st)


def judged(rec, body, rule, label, construct=None, allow=()):
    """Explore body(s, later) and judge what it collected; an escaping exception violates `rule`."""
    construct = construct or RFN

    def scen(s):
        later = Later()
        body(s, later)
        return later
    for p in rec.explore(scenario(rec.chk, scen)):
        if p.error:
            rec.check(False, rule, construct, lambda: f"{label}: {p.error[0]} {getattr(p.error[1], 'value', p.error[1])!r}", p)
            continue
        p.outcome[1].apply(rec, p)


POLICIES = {"patch": ({"patch": {"delay": 7}}, 7), "default": (None, 30), "recreate": ({"recreate": {"delay": 8}}, 8), "never": ({"never": {}}, None)}
FORMS = ("inline", "template", "overlay", "expression", "function")


def function_of(s, doc, policy, form="inline", **over):
    """A function whose target is `doc` and the inputs it needs."""
    upd = POLICIES[policy][0]
    if upd is not None:
        over["update"] = upd
    inputs = {}
    if form == "inline":
        over["resource"] = doc
    elif form == "template":
        s.cache("ResourceTemplate", "tpl", {"template": deep_merge(doc, {"apiVersion": "test.koreo.dev/v1", "kind": "Thing"})})
        over["resourceTemplateRef"] = {"name": "tpl"}
    elif form == "overlay":
        over["resource"] = {"spec": {}}
        over["overlays"] = [{"overlay": doc}]
    elif form == "function":
        s.cache("ValueFunction", "vf-target", {"return": doc})
        over["resource"] = {"spec": {}}
        over["overlays"] = [{"overlayRef": {"kind": "ValueFunction", "name": "vf-target"}}]
    elif form == "expression":
        over["resource"] = {k: f"=inputs.doc['{k}']" for k in doc}
        inputs["doc"] = doc
    over.setdefault("return", {"spec": "=has(resource.spec) ? resource.spec : {}"})
    fn, _ = s.prepare("ResourceFunction", "rf", rf_spec(**over))
    return fn, inputs
