"""C04  ResourceFunction reaches a fixpoint: no mutation once target is met."""
import copy
import itertools
import json

from ..values import *
from ..scen import *
from ..rf import *

EXPLANATION = (
    "Fixpoint rule over reconcile_resource_function: for families of targets (every value kind, nesting, list, set/map/last-applied directive, template, overlay and "
    "function sources) crossed with everything others may add to the live object, a pass over an object that meets the target may reach no mutating API operation "
    "and must reach postconditions and return; from any start (absent or drifted) the abstract passes over an in-memory cluster (create, RFC 7386 merge patch, delete) must "
    "return Retry with the configured delay on every mutating pass and stop mutating after it.")
RULES = ["fixpoint: live object meets the target => no create/patch/delete and the pass continues to postconditions and return",
         "mutating-retry: a pass that mutates returns Retry with the configured delay, never Ok",
         "converges: after the create or patch is applied further passes with unchanged inputs do not mutate"]
FLOOR = {"quick": 2500, "thorough": 8000}

EXTRA_TARGETS = {
    "nulls": {"spec": {"n": None, "m": {"n": None, "k": 1}, "l": [None, 1], "lm": [{"a": None}]}},
    "empty": {"spec": {}},
    "deep": {"spec": {"a": {"b": {"c": {"d": {"e": [{"f": [{"g": {"h": [0, "", False, {}]}}]}]}}}}}},
    "metadata": {"metadata": {"labels": {"a": "b"}, "annotations": {"x": "y"}, "finalizers": ["f1"]}, "data": {"k": "v", "empty": ""}},
    "keys": {"spec": {"a.b/c": "x", "with space": 1, "": "empty-key", "metadata": {"name": "inner"}, "kind": "inner", "ownerReferences": [{"a": 1}]}},
    "set-edge": {"spec": {SET: ["one", "none", "dup", "mixed"], "one": ["a"], "none": [], "dup": ["a", "b", "a"], "mixed": ["1x", 1, True, 0, False, ""]}},
    "map-edge": {"spec": {MAP: {"one": ["k"], "none": ["k"], "wide": ["k", "missing"]}, "one": [{"k": 0, "v": None}], "none": [], "wide": [{"k": "", "v": []}, {"k": "x", "v": {}}]}},
    "annotated": {"metadata": {"annotations": {ANNOTATION: '{"stale": true}', "keep": "yes"}}, "spec": {"a": 1}},
    "both": {"spec": {SET: ["s"], MAP: {"m": ["k"]}, LAST: ["p"], "s": ["x", "y"], "m": [{"k": 1, "v": "a"}, {"k": 2, "v": "b"}], "p": "secret", "q": [{SET: ["t"], "t": [1, 2, 3]}]}},
    "last-deep": {"spec": {"l": [{LAST: ["s"], "s": f"pw{i}", "n": i} for i in range(3)], MAP: {"m": ["k"]}, "m": [{"k": k, LAST: ["s"], "s": f"pw{k}"} for k in "xy"], "deep": {"x": {LAST: ["s"], "s": "q"}}}},
    "map-keys": {"spec": MAP_KEYS},
}
ALL = {**TARGETS, **EXTRA_TARGETS}
RETURN = {"spec": "=has(resource.spec) ? resource.spec : {}", "uid": "=resource.metadata.uid"}
POST = [{"assert": "=has(resource.status)", "retry": {"message": "not ready", "delay": 13}}]
STATUS = {"ready": True, "conditions": [{"type": "Ready"}]}


def annotated(live, text):
    out = copy.deepcopy(live)
    out["metadata"].setdefault("annotations", {})[ANNOTATION] = text
    return out


def met(doc):
    """Live objects that meet the target."""
    base = live_from(doc)
    yield "equal", base
    yield "extra fields everywhere", with_extras_outside(base, doc)
    for h in (0, 1):
        yield f"directed lists reordered {h}", strip(shuffled_live(doc, base, h))
    yield "extra and reordered", with_extras_outside(strip(shuffled_live(doc, base, 1)), doc)
    yield "status", {**base, "status": STATUS}
    yield "server metadata", {**base, "metadata": {**base["metadata"], "generation": 3, "managedFields": [{"manager": "x"}], "creationTimestamp": "2024-01-01T00:00:00Z", "finalizers": base["metadata"].get("finalizers", ["a/b"]),
                                                   "annotations": {**base["metadata"].get("annotations", {}), "other": "y"}, "labels": {**base["metadata"].get("labels", {}), "zz": ""}}}
    sent = strip(full_target(doc))
    yield "last-applied as sent", annotated(base, json.dumps(sent))
    if "last" not in str(doc.get("spec", {}).keys()):
        older = copy.deepcopy(sent)
        older["spec"] = {"old": True}
        if not any(LAST in str(k) for k in flat_keys(doc)):
            for t in (json.dumps(older), "", "{}", "null", "[]", "7", "not json", '{"spec": [1]}', '{"spec": null, "metadata": {"labels": []}}', '{"metadata": "x"}'):
                yield f"last-applied {t!r}", annotated(base, t)


def flat_keys(d):
    if isinstance(d, dict):
        for k, v in d.items():
            yield k
            yield from flat_keys(v)
    elif isinstance(d, list):
        for x in d:
            yield from flat_keys(x)


def with_extras_outside(live, doc):
    """Unknown fields at every map level."""
    return with_extras(live)


def shuffled_live(doc, live, how):
    t = shuffled(full_target(doc), how)
    out = strip(t)
    out["metadata"] = {**out["metadata"], **{k: v for k, v in live["metadata"].items() if k not in out["metadata"]}}
    return out


def has_last(doc):
    return any(k == LAST for k in flat_keys(doc))


def fixpoint(name, doc, form, policy):
    def run(rec):
        def body(s, later):
            ip = s.ip
            fn, inputs = function_of(s, doc, policy, form, postconditions=POST, **{"return": RETURN})
            for desc, live in met(doc):
                if has_last(doc):
                    if "last-applied" not in desc:
                        live = annotated(live, json.dumps(strip(full_target(doc))))
                c = Cluster(ip)
                c.put("things", "ns1", "thing-1", live)
                a = one_pass(s, fn, c, inputs)
                what = f"{name}/{form}/{policy}: live object meets the target ({desc})"
                later.check(not a.ops and a.kind != "raise", "fixpoint", KRM, lambda: f"{what} but the pass does {a}", event=a.muts[0] if a.muts else None)
                if a.ops or a.kind == "raise":
                    continue
                if "status" in live:
                    ok = a.kind == "value"
                    v = plain(ip, a.out) if ok else None
                    later.check(ok and same(v, {"spec": live.get("spec", {}), "uid": live["metadata"]["uid"]}), "fixpoint", RFN, lambda: f"{what}: outcome {a} {v!r} is not the return value")
                else:
                    ok = a.kind == "Retry" and s.text(s.attr(a.out, "message")) == "not ready" and ip.force(s.attr(a.out, "delay")) == 13
                    later.check(ok, "fixpoint", RFN, lambda: f"{what}: postcondition does not decide: {a}")
        judged(rec, body, "fixpoint", f"{name}/{form}/{policy}")
    return run


CREATE = {"default": (None, 30), "delay": ({"delay": 9}, 9), "overlay": ({"delay": 11, "overlay": {"spec": {"created": "=inputs.c", "only": {"at": "create"}}}}, 11)}


def converge(name, doc, form, policy, cre, owned):
    def run(rec):
        per = perturbations(doc)
        starts = [("absent", None)] + per[:: max(1, len(per) // (8 if not rec.thorough else 40))]

        def body(s, later):
            ip = s.ip
            over = {}
            if CREATE[cre][0]:
                over["create"] = CREATE[cre][0]
            if owned is not None:
                over["api"] = {"owned": True}
            fn, inputs = function_of(s, doc, policy, form, **over)
            own = owner(owned or "ns1")
            for desc, live in starts:
                for hostile in (False, True):
                    c = Cluster(ip)
                    if live is not None:
                        c.put("things", "ns1", "thing-1", live)
                    calm = 0
                    trail = []
                    for i in range(4):
                        a = one_pass(s, fn, c, {**inputs, "c": 5}, own)
                        trail.append(a)
                        for e in a.muts:
                            later.check(a.kind == "Retry", "mutating-retry", KRM, lambda: f"{name}/{form}/{policy}/{cre} from {desc}: pass {i} performs {a.ops} and returns {a}", event=e)
                            if a.kind == "Retry":
                                want = CREATE[cre][1] if e.data["op"] == "create" else POLICIES[policy][1]
                                d = ip.force(s.attr(a.out, "delay"))
                                later.check(d == want, "mutating-retry", KRM, lambda: f"{name}/{form}/{policy}/{cre} from {desc}: {e.data['op']} returns Retry({d!r}), configured {want}", event=e)
                        calm = calm + 1 if not a.ops else 0
                        if hostile:
                            touch(s, c, doc)
                    limit = 2 if policy == "recreate" else 1
                    busy = sum(1 for a in trail if a.ops)
                    want_busy = 0 if live is not None and policy == "never" else 1 if live is None or policy != "recreate" else 2
                    later.check(busy <= limit and all(not a.ops and a.kind == "value" for a in trail[limit:]), "converges", KRM,
                                lambda: f"{name}/{form}/{policy}/{cre}/owned={owned} from {desc}, others touching it={hostile}: passes {trail}", event=trail[-1].muts[0] if trail[-1].muts else None)
                    later.check(busy == want_busy, "converges", KRM, lambda: f"{name}/{form}/{policy}/{cre}/owned={owned} from {desc}: {busy} mutating passes, expected {want_busy}: {trail}")
        judged(rec, body, "converges", f"{name}/{form}/{policy}/{cre}")
    return run


def touch(s, c, doc):
    """The server and other actors add fields and reorder directed lists."""
    o = stored(s, c)
    if o is None:
        return
    keep_md = o["metadata"]
    t = shuffled(full_target(doc), 0)
    o = reorder_like(o, t)
    o = with_extras({k: v for k, v in o.items()}, "srv")
    for k in list(keep_md):
        if k in ("annotations", "ownerReferences"):
            o["metadata"][k] = keep_md[k]
    if keep_md.get("ownerReferences"):
        o["metadata"]["ownerReferences"] = [{"apiVersion": "v1", "kind": "X", "name": "x", "uid": "x-uid"}] + [r for r in keep_md["ownerReferences"] if r.get("uid") != "x-uid"]
    c.put("things", "ns1", "thing-1", o)


def reorder_like(live, target):
    if isinstance(live, dict) and isinstance(target, dict):
        out = {}
        for k, v in live.items():
            t = target.get(k)
            if isinstance(v, list) and (k in target.get(SET, ()) or k in target.get(MAP, {})):
                out[k] = v[1:] + v[:1]
            else:
                out[k] = reorder_like(v, t)
        return out
    if isinstance(live, list) and isinstance(target, list) and len(live) == len(target):
        return [reorder_like(a, b) for a, b in zip(live, target)]
    return live


def ownership(owned, ons):
    return lambda rec: ownership_(rec, owned, ons)


def ownership_(rec, owned, ons):
    """Owner reference present / irrelevant => fixpoint, wherever it sits in the list."""
    doc = TARGETS["scalars"]
    others = [{"apiVersion": "v1", "kind": "Other", "name": f"o{i}", "uid": f"other-{i}"} for i in range(2)]

    def body(s, later):
        ip = s.ip
        mine = {k: v for k, v in OWNER.items()}
        if True:
            fn, inputs = function_of(s, doc, "patch", api={"owned": owned})
            for refs in (None, [], [mine], [mine] + others, others + [mine], [others[0], mine, others[1]], others, [{**mine, "controller": True, "blockOwnerDeletion": False}], [{**mine, "name": "renamed"}]):
                live = live_from(doc, **({"ownerReferences": refs} if refs is not None else {}))
                applies = owned and ons == "ns1"
                present = any(r["uid"] == mine["uid"] for r in refs or [])
                c = Cluster(ip)
                c.put("things", "ns1", "thing-1", live)
                trail = [one_pass(s, fn, c, inputs, owner(ons)) for _ in range(3)]
                want = ["patch"] if applies and not present else []
                later.check(trail[0].ops == want, "fixpoint", KRM, lambda: f"owned={owned} owner namespace {ons} live refs {refs!r}: {trail[0]}, expected {want}", event=trail[0].muts[0] if trail[0].muts else None)
                later.check(all(not a.ops and a.kind == "value" for a in trail[1:]), "converges", KRM, lambda: f"owned={owned} owner namespace {ons} live refs {refs!r}: {trail}")
            for trefs in ([others[0]], [mine], [mine, others[1]], [], [dict(others[0], uid="t-uid")]):
                tdoc = {"metadata": {"ownerReferences": trefs}, "spec": {"a": 1}}
                fn, inputs = function_of(s, tdoc, "patch", api={"owned": owned})
                for refs in (None, [], [mine], others, [others[1], mine]):
                    for drift in (False, True):
                        c = Cluster(ip)
                        c.put("things", "ns1", "thing-1", live_from({"spec": {"a": 2 if drift else 1}}, **({"ownerReferences": refs} if refs is not None else {})))
                        trail = [one_pass(s, fn, c, inputs, owner(ons)) for _ in range(4)]
                        later.check(all(not a.ops and a.kind == "value" for a in trail[1:]), "converges", KRM,
                                    lambda: f"owned={owned} owner namespace {ons} live refs {refs!r} target refs {trefs!r} drift={drift}: {trail}")
    judged(rec, body, "fixpoint", "ownership")


def inputs_change(rec):
    """Same prepared function, inputs changing between passes: exactly one patch per change."""
    doc = {"spec": {"v": "=inputs.v", "l": ["=inputs.v", 1], "m": {"k": "=inputs.w"}}}

    def body(s, later):
        ip = s.ip
        for form in ("inline", "overlay", "function"):
            over = {}
            if form == "function":
                s.cache("ValueFunction", "vf-t", {"return": doc})
                over = {"resource": {"spec": {}}, "overlays": [{"overlayRef": {"kind": "ValueFunction", "name": "vf-t"}, "inputs": {"v": "=inputs.v", "w": "=inputs.w"}}]}
            elif form == "overlay":
                over = {"resource": {"spec": {}}, "overlays": [{"overlay": doc}]}
            else:
                over = {"resource": doc}
            fn, _ = s.prepare("ResourceFunction", "rf", rf_spec(update={"patch": {"delay": 7}}, create={"delay": 9}, **{"return": RETURN}, **over))
            c = Cluster(ip)
            trail = []
            for v in ("a", "a", "b", "b", "", "", 0, 0, False, False, None, None, [], [], {"x": 1}, {"x": 1}, {}, {}, "a", "a"):
                a = one_pass(s, fn, c, {"v": v, "w": 1})
                trail.append((v, a))
            for i, (v, a) in enumerate(trail):
                if i % 2 and not (trail[i - 1][1].ops == []):
                    later.check(not a.ops and a.kind == "value", "converges", KRM, lambda: f"{form}: inputs.v stays {v!r} after {trail[i - 1][1]} but the pass does {a}", event=a.muts[0] if a.muts else None)
                elif i == 0:
                    later.check(a.ops == ["create"] and a.kind == "Retry", "mutating-retry", KRM, lambda: f"{form}: first pass {a}")
    judged(rec, body, "converges", "inputs-change")


def scenarios(chk, tier):
    chk.get(RFN)
    forms = FORMS
    for name, doc in ALL.items():
        for form in forms if tier == "thorough" or name in ("nested", "set", "map", "both", "last") else forms[:1]:
            for policy in POLICIES if form == "inline" or tier == "thorough" else ("patch",):
                yield f"fixpoint/{name}/{form}/{policy}", fixpoint(name, doc, form, policy)
    for name, doc in ALL.items():
        for cre in CREATE:
            for policy in POLICIES:
                if tier == "quick" and policy in ("default", "never") and cre != "default":
                    continue
                yield f"converge/{name}/inline/{policy}/{cre}", converge(name, doc, "inline", policy, cre, None)
    for name in ("nested", "set-deep", "map-deep", "nulls"):
        for own in ("ns1", "elsewhere"):
            for policy in ("patch", "recreate"):
                yield f"converge/{name}/owned={own}/{policy}", converge(name, ALL[name], "inline", policy, "default", own)
        for form in forms[1:]:
            yield f"converge/{name}/{form}", converge(name, ALL[name], form, "patch", "overlay", "ns1")
    for owned, ons in itertools.product((True, False), ("ns1", "elsewhere")):
        yield f"ownership/{owned}/{ons}", ownership(owned, ons)
    yield "inputs-change", inputs_change
