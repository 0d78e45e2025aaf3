"""C08  Payloads are clean: no directives, truthful last-applied, owners preserved."""
import copy
import itertools
import json

from ..values import *
from ..scen import *
from ..rf import *

EXPLANATION = (
    "Sanitisation and ownership rule over every create and patch reachable from reconcile_resource_function: comparison directives are planted at every depth and in every source "
    "(resource, template, overlays, overlay functions, create overlay, expressions) and none may reach a payload; the last-applied annotation must parse to exactly the payload "
    "without it; the owner reference must be there exactly when the function is owning and namespaces are shared; and owner references of the live object must survive every patch.")
RULES = ["no-directives: no payload contains a comparison directive key at any depth",
         "last-applied: the annotation is the JSON of the object as sent without the annotation",
         "complete: removing directives removes nothing else",
         "owner: created objects carry the parent's reference iff owning and same namespace; a patch adds it under the same condition when missing",
         "owners-kept: owner references on the live object survive a patch"]
FLOOR = {"quick": 2500, "thorough": 6000}

DIR_DOCS = {
    **TARGETS,
    "root": {SET: ["finalizers"], LAST: ["x"], MAP: {"y": ["k"]}, "x": 1, "y": [{"k": 1}], "spec": {}},
    "metadata": {"metadata": {SET: ["finalizers"], "finalizers": ["a", "b"], "labels": {"k": "v", LAST: ["k"]}, "annotations": {"a": "b"}}, "spec": {"a": 1}},
    "in-lists": {"spec": {"l": [[{SET: ["q"], "q": [1, 2]}], {"m": [{LAST: ["z"], "z": {SET: [], "w": [{MAP: {}}]}}]}]}},
    "empty-left": {"spec": {"only": {SET: ["x"]}, "list": [{MAP: {"x": ["k"]}}], "keep": {}}},
    "values": {"spec": {"text": SET, "list": [MAP, LAST], "k": {"x-koreo": 1, "x-koreo-compare": 2, "koreo-compare-as-set": 3}}},
    "quotes": {"spec": {"q": "it's \"quoted\"", "u": "é☃", "n": "line1\nline2", "empty": "", "nulls": [None, {"a": None}]}},
    "annotated": {"metadata": {"annotations": {ANNOTATION: '{"stale": true}', "keep": "yes"}}, "spec": {"a": 1}},
}


def has_directive(doc):
    if isinstance(doc, dict):
        for k, v in doc.items():
            if k in DIRECTIVES:
                return k
            r = has_directive(v)
            if r:
                return r
    elif isinstance(doc, list):
        for v in doc:
            r = has_directive(v)
            if r:
                return r
    return None


def judge_payloads(later, s, evs, what):
    out = []
    for e in evs:
        if e.data["op"] not in ("create", "patch"):
            continue
        op = e.data["op"]
        body = wire(s.ip, e.data["payload"])
        bad = has_directive(body)
        later.check(bad is None, "no-directives", f"{KRM}:{op}", lambda: f"{what}: {op} payload contains {bad!r}: {body!r}", event=e)
        rest, text = without_annotation(body)
        try:
            said = json.loads(text) if isinstance(text, str) else text
        except ValueError:
            said = ("not JSON", text)
        good = isinstance(said, dict) and same(tidy(said), tidy(rest)) and said.get("metadata", {}).get("annotations", {}).get(ANNOTATION) is None
        later.check(good, "last-applied", f"{KRM}:{op}", lambda: f"{what}: {op} annotation says {said!r} but the object sent is {rest!r}", event=e)
        out.append((op, rest))
    return out


def sources(name, doc, form, cre):
    def run(rec):
        def body(s, later):
            ip = s.ip
            over = {"create": {"delay": 9}}
            over_doc = {"spec": {"fromCreate": {SET: ["z"], "z": ["b", "a"], "y": [{LAST: ["w"], "w": 1}]}}}
            if cre == "overlay":
                over["create"]["overlay"] = over_doc
            elif cre == "expression":
                over["create"]["overlay"] = {"spec": {"fromCreate": "=inputs.cre"}}
            for owned in (False, True):
                fn, inputs = function_of(s, doc, "patch", form, **copy.deepcopy(over), api={"owned": owned})
                inputs = {**inputs, "cre": over_doc["spec"]["fromCreate"]}
                for state in ("absent", "differs", "mine"):
                    c = Cluster(ip)
                    live_refs = [{"apiVersion": "v1", "kind": "O", "name": "o", "uid": "o-uid"}]
                    if state != "absent":
                        live = live_from(doc, ownerReferences=live_refs + ([dict(OWNER)] if state == "mine" else []))
                        live = {**live, "spec": {"all": "different"}, "data": None}
                        if any(k not in ("metadata", "spec") for k in doc):
                            live.pop("x", None)
                        live.setdefault("metadata", {}).setdefault("annotations", {})[ANNOTATION] = '{"older": 1}'
                        live["spec"] = "replaced"
                        c.put("things", "ns1", "thing-1", live)
                    n = len(ip.events)
                    a = one_pass(s, fn, c, inputs)
                    what = f"{name}/{form}/create {cre}/owned={owned}/{state}"
                    got = judge_payloads(later, s, mutations(ip.events[n:]), what)
                    later.check(bool(got), "complete", KRM, lambda: f"{what}: nothing is sent ({a})")
                    for op, rest in got:
                        exp = full_target(doc)
                        if op == "create" and cre != "none":
                            exp = deep_merge(exp, over_doc)
                        exp = strip(exp)
                        exp.get("metadata", {}).get("annotations", {}).pop(ANNOTATION, None)
                        refs = rest["metadata"].pop("ownerReferences", None)
                        later.check(same(tidy(rest), tidy(exp)), "complete", f"{KRM}:{op}", lambda: f"{what}: {op} sends {rest!r}, expected {exp!r}")
                        mine = sum(1 for r in refs or [] if r.get("uid") == OWNER["uid"])
                        if op == "create":
                            later.check(mine == (1 if owned else 0), "owner", f"{KRM}:create", lambda: f"{what}: created with owner references {refs!r}")
                        else:
                            if state == "mine" or not owned:
                                later.check(refs is None or mine == (1 if state == "mine" else 0), "owner", f"{KRM}:patch", lambda: f"{what}: patch sends owner references {refs!r}")
                            else:
                                later.check(mine == 1, "owner", f"{KRM}:patch", lambda: f"{what}: patch does not add the parent: {refs!r}")
                            after = (stored(s, c) or {}).get("metadata", {}).get("ownerReferences") or []
                            keep = live_refs + ([dict(OWNER)] if state == "mine" else [])
                            later.check(all(any(same(r, x) for x in after) for r in keep), "owners-kept", f"{KRM}:patch", lambda: f"{what}: after the patch the owner references are {after!r}, before {keep!r}")
        judged(rec, body, "no-directives", f"{name}/{form}")
    return run


REF = {"apiVersion": "v1", "kind": "Other", "name": "o", "uid": "u1", "controller": True, "blockOwnerDeletion": True}
LIVE_REFS = {
    "none": None, "empty": [], "other": [REF], "two": [REF, {**REF, "uid": "u2", "name": "p"}], "mine": [dict(OWNER)], "mine-first": [dict(OWNER), REF], "mine-last": [REF, dict(OWNER)],
    "same-name": [{**OWNER, "uid": "someone-else"}], "no-uid": [{"apiVersion": "v1", "kind": "Odd", "name": "odd"}], "odd": [{**REF, "extra": {"x": [1]}}, {**REF, "uid": "u3"}],
}
TARGET_REFS = {"none": None, "own": [{**REF, "uid": "t1", "name": "t"}], "empty": [], "mine": [dict(OWNER)], "null": ...}


def owner_table(target_refs):
    def run(rec):
        def body(s, later):
            ip = s.ip
            for owned, ons, obj_ns in itertools.product((True, False), ("ns1", "ns2", ""), ("ns1", None)):
                doc = {"spec": {"a": 1}}
                if target_refs != "none":
                    doc["metadata"] = {"ownerReferences": None if target_refs == "null" else TARGET_REFS[target_refs]}
                api = {"owned": owned}
                if obj_ns is None:
                    api.update(namespaced=False, namespace=...)
                fn, inputs = function_of(s, doc, "patch", api=api)
                applies = owned and ons == obj_ns
                what0 = f"owned={owned} parent in {ons!r} object in {obj_ns!r} target refs {target_refs}"
                c = Cluster(ip)
                n = len(ip.events)
                a = one_pass(s, fn, c, inputs, owner(ons))
                got = judge_payloads(later, s, mutations(ip.events[n:]), what0)
                later.check([op for op, _ in got] == ["create"], "owner", f"{KRM}:create", lambda: f"{what0}: absent object gives {a}")
                for op, rest in got:
                    refs = rest["metadata"].get("ownerReferences") or []
                    mine = [r for r in refs if r.get("uid") == OWNER["uid"]]
                    extra = target_refs == "mine" and not applies
                    later.check(extra or len(mine) == (1 if applies else 0), "owner", f"{KRM}:create", lambda: f"{what0}: created with owner references {refs!r}")
                    if applies and target_refs != "mine":
                        later.check(bool(mine) and same(mine[0], dict(OWNER)), "owner", f"{KRM}:create", lambda: f"{what0}: the parent's reference is sent as {mine!r}")
                for rname, refs in LIVE_REFS.items():
                    for drift in (True, False):
                        live = live_from({"spec": {"a": 2 if drift else 1}}, **({"ownerReferences": refs} if refs is not None else {}))
                        if obj_ns is None:
                            live["metadata"].pop("namespace")
                        c = Cluster(ip)
                        c.put("things", obj_ns, "thing-1", live)
                        what = f"{what0} live refs {rname} drift={drift}"
                        n = len(ip.events)
                        for i in range(2):
                            a = one_pass(s, fn, c, inputs, owner(ons))
                            present = any(r.get("uid") == OWNER["uid"] for r in refs or [])
                            if i == 0:
                                want = ["patch"] if drift or (applies and not present) else []
                                later.check(a.ops == want, "owner", KRM, lambda: f"{what}: {a}, expected {want}")
                        judge_payloads(later, s, mutations(ip.events[n:]), what)
                        after = (stored(s, c, ns=obj_ns) or {}).get("metadata", {}).get("ownerReferences") or []
                        later.check(all(any(same(r, x) for x in after) for r in refs or []), "owners-kept", f"{KRM}:patch", lambda: f"{what}: owner references {refs!r} become {after!r}")
                        mine = [r for r in after if r.get("uid") == OWNER["uid"]]
                        want_n = 1 if applies or present or (target_refs == "mine" and drift) else 0
                        later.check(len(mine) == want_n or (target_refs == "mine" and len(mine) <= 1), "owner", f"{KRM}:patch", lambda: f"{what}: afterwards the parent's reference is there {len(mine)} time(s), expected {want_n}")
        judged(rec, body, "owner", f"owner table {target_refs}")
    return run


def successive(rec):
    """Different parents through one prepared function: nothing of one invocation shows up in the next payload."""
    for form in ("inline", "template", "overlay", "function"):
        def body(s, later, form=form):
            ip = s.ip
            doc = {"metadata": {"labels": {"a": "b"}, "annotations": {"n": "x"}}, "spec": {"a": 1, SET: ["l"], "l": [2, 1]}}
            fn, inputs = function_of(s, doc, "patch", form, api={"owned": True, "name": "=inputs.n"})
            c = Cluster(ip)
            for i in range(3):
                me = {**OWNER, "uid": f"parent-{i}", "name": f"p{i}"}
                for state in ("absent", "drift"):
                    nm = f"obj-{i}-{state}"
                    if state == "drift":
                        live = live_from({"spec": {"a": 2}}, ownerReferences=[{**REF, "uid": f"live-{i}"}])
                        live["metadata"]["name"] = nm
                        c.put("things", "ns1", nm, live)
                    n = len(ip.events)
                    a = one_pass(s, fn, c, {**inputs, "n": nm}, owner("ns1", me))
                    what = f"{form}: invocation {i} ({state})"
                    for op, rest in judge_payloads(later, s, mutations(ip.events[n:]), what):
                        uids = sorted(r["uid"] for r in rest["metadata"].get("ownerReferences") or [])
                        want = sorted([f"parent-{i}"] + ([f"live-{i}"] if state == "drift" else []))
                        later.check(uids == want, "owner", f"{KRM}:{op}", lambda: f"{what}: {op} sends owner references {uids}, expected {want}")
                        later.check(rest["metadata"].get("annotations") == {"n": "x"} and rest["metadata"]["labels"] == {"a": "b"}, "complete", f"{KRM}:{op}", lambda: f"{what}: metadata sent is {rest['metadata']!r}")
                    later.check(bool(a.ops), "owner", KRM, lambda: f"{what}: {a}")
        judged(rec, body, "owner", f"successive/{form}")


def scenarios(chk, tier):
    chk.get(RFN)
    for name, doc in DIR_DOCS.items():
        for form in FORMS:
            if form == "template" and name == "root":
                pass
            for cre in ("none", "overlay", "expression") if form == "inline" or tier == "thorough" else ("overlay",):
                yield f"sources/{name}/{form}/{cre}", sources(name, doc, form, cre)
    for t in TARGET_REFS:
        yield f"owners/{t}", owner_table(t)
    yield "successive", successive
