"""C05  Drift in any target-specified field triggers the configured correction."""
from ..values import *
from ..scen import *
from ..rf import *

EXPLANATION = (
    "Path rule over reconcile_resource_function: for every field a family of targets specifies and every kind of difference (changed, retyped, removed, list "
    "grown/shrunk/reordered, set/map member missing, extra or changed) the abstract pass must perform exactly the mutation its update policy prescribes, "
    "with a payload equal to the full target, report Retry with the configured delay, and leave an object that meets the target and is not touched again.")
RULES = ["correction: a differing field => exactly one patch / one delete / nothing, according to the policy",
         "retry: patch and recreate report Retry with the configured delay; never goes on to the return value",
         "full-target: the patch payload is the full target (directives removed)",
         "restored: after the patch the object meets the target and the next pass does not mutate"]
FLOOR = {"quick": 5000, "thorough": 12000}

def judge_drift(rec, s, p, fn, inputs, desc, live, doc, policy, own=None, refs=None):
    ip = s.ip
    c = Cluster(ip)
    c.put("things", "ns1", "thing-1", live)
    a = one_pass(s, fn, c, inputs, own)
    target = full_target(doc)
    want = {"patch": ["patch"], "default": ["patch"], "recreate": ["delete"], "never": []}[policy]
    rec.check(a.ops == want, "correction", KRM, lambda: f"policy {policy}: live differs ({desc}) but the pass does {a} instead of {want}", p, event=a.muts[0] if a.muts else None)
    if a.ops != want:
        return
    if policy == "never":
        rec.check(a.kind == "value" or a.kind == "Ok", "retry", KRM, lambda: f"policy never ({desc}): outcome {a}", p)
        return
    delay = POLICIES[policy][1]
    d = s.attr(a.out, "delay") if a.kind == "Retry" else None
    rec.check(a.kind == "Retry" and ip.force(d) == delay, "retry", KRM, lambda: f"policy {policy} ({desc}): outcome {a} delay {d!r}, expected Retry({delay})", p)
    if policy == "recreate":
        return
    sent = payload_of(s, a.muts[0])
    body, _ = without_annotation(sent)
    body = tidy(body)
    md = body.get("metadata", {})
    if refs is not None and isinstance(md, dict):
        md = {k: v for k, v in md.items() if k != "ownerReferences"}
        body = {**body, "metadata": md}
    exp = strip(target)
    rec.check(same(body, exp), "full-target", KRM, lambda: f"({desc}) payload {body!r} is not the full target {exp!r}", p, event=a.muts[0])
    after = stored(s, c)
    rec.check(meets(target, after), "restored", KRM, lambda: f"({desc}) after the patch the object is {after!r}", p)
    b = one_pass(s, fn, c, inputs, own)
    rec.check(not b.ops and b.kind == "value", "restored", KRM, lambda: f"({desc}) the pass after the patch does {b}", p)


def drift(name, doc, policy, form, items):
    def run(rec):
        def body(s, later):
            fn, inputs = function_of(s, doc, policy, form)
            for desc, live in items:
                judge_drift(later, s, None, fn, inputs, desc, live, doc, policy)
        judged(rec, body, "correction", f"{name}/{form}")
    return run


def last_applied(rec):
    """A last-applied-directed field is compared against what was last sent, everything else against the live object."""
    doc = TARGETS["last"]

    def body(s, later):
        ip = s.ip
        fn, inputs = function_of(s, doc, "patch")
        base = live_from(doc)
        for secret in ("pw", "old", None, 0, {"a": 1}, ["pw"]):
            prev = strip(full_target(doc))
            prev["spec"]["secret"] = secret
            live = copy.deepcopy(base)
            live["metadata"]["annotations"] = {ANNOTATION: json.dumps(prev)}
            for cur in ("pw", "masked", ...):
                lv = copy.deepcopy(live)
                if cur is ...:
                    del lv["spec"]["secret"]
                else:
                    lv["spec"]["secret"] = cur
                c = Cluster(ip)
                c.put("things", "ns1", "thing-1", lv)
                a = one_pass(s, fn, c, inputs)
                want = [] if secret == "pw" else ["patch"]
                later.check(a.ops == want, "correction", KRM, lambda: f"last-applied field: last sent {secret!r}, target 'pw', live {cur!r}: the pass does {a}, expected {want}", None)
        live = copy.deepcopy(base)
        live["spec"]["plain"] = "changed"
        live["metadata"]["annotations"] = {ANNOTATION: json.dumps(strip(full_target(doc)))}
        judge_drift(later, s, None, fn, inputs, "plain changed, last-applied equal", live, doc, "patch")
        live = copy.deepcopy(base)
        judge_drift(later, s, None, fn, inputs, "last-applied annotation absent", live, doc, "patch")
    judged(rec, body, "correction", "last-applied")


def ownership(rec):
    """A missing parent reference is drift where ownership applies."""
    doc = TARGETS["scalars"]
    other = {"apiVersion": "v1", "kind": "Other", "name": "o", "uid": "other-uid"}

    def body(s, later):
        for policy in POLICIES:
            fn, inputs = function_of(s, doc, policy, api={"owned": True})
            for refs in (None, [], [other], [other, {**other, "uid": "third"}]):
                live = live_from(doc, **({"ownerReferences": refs} if refs is not None else {}))
                c = f"owner reference missing, live refs {refs!r}"
                judge_drift(later, s, None, fn, inputs, c, live, doc, policy, refs=True)
    judged(rec, body, "correction", "ownership")


def garbage(rec):
    """Drift is found whatever the last-applied annotation of the live object holds."""
    doc = TARGETS["scalars"]

    def body(s, later):
        for pol in ("patch", "recreate"):
            fn, inputs = function_of(s, doc, pol)
            for text in ("", "{}", "null", "[]", "\"text\"", "7", "not json", "{", '{"spec": []}', '{"spec": "x", "metadata": 5}', '{"spec": {"i": [1]}}'):
                live = live_from(doc, annotations={ANNOTATION: text})
                live["spec"]["i"] = 2
                judge_drift(later, s, None, fn, inputs, f"i changed, last-applied annotation {text!r}", live, doc, pol)
    judged(rec, body, "correction", "garbage annotation")


def owner_field(rec):
    """Only metadata.ownerReferences is special: the same key elsewhere is compared."""
    doc = {"spec": {"ownerReferences": [{"a": 1}], "deep": {"metadata": {"ownerReferences": "x", "k": 1}}}}

    def body(s, later):
        fn, inputs = function_of(s, doc, "patch")
        for desc, live in perturbations(doc):
            judge_drift(later, s, None, fn, inputs, desc, live, doc, "patch")
    judged(rec, body, "correction", "owner field")


def map_keys(rec):
    """Members of a map-directed list with different keys are different members, however alike their keys are."""
    doc = {"spec": MAP_KEYS}

    def body(s, later):
        fn, inputs = function_of(s, doc, "patch")
        for name, items in MAP_KEYS.items():
            if name == MAP:
                continue
            for i in range(len(items)):
                for order in (1, -1):
                    live = live_from(doc)
                    live["spec"][name][i]["v"] = "drifted"
                    live["spec"][name] = live["spec"][name][::order]
                    judge_drift(later, s, None, fn, inputs, f"{name}: member {items[i]} drifted", live, doc, "patch")
                live = live_from(doc)
                del live["spec"][name][i]
                judge_drift(later, s, None, fn, inputs, f"{name}: member {items[i]} removed", live, doc, "patch")
    judged(rec, body, "correction", "map keys")


def scenarios(chk, tier):
    chk.get(RFN)
    for name, doc in TARGETS.items():
        if name == "last":
            continue
        per = perturbations(doc)
        for policy in POLICIES:
            items = per if policy == "patch" or tier == "thorough" else per[(len(policy) % 3)::6]
            for i, b in enumerate(batches(items, 40)):
                yield f"drift/{name}/{policy}/inline/{i}", drift(name, doc, policy, "inline", b)
        for form in FORMS[1:]:
            for policy in ("patch",) if tier == "quick" else tuple(POLICIES):
                items = per[FORMS.index(form)::(13 if tier == "quick" else 3)]
                for i, b in enumerate(batches(items, 40)):
                    yield f"drift/{name}/{policy}/{form}/{i}", drift(name, doc, policy, form, b)
    yield "last-applied", last_applied
    yield "ownership", ownership
    yield "garbage", garbage
    yield "owner-field", owner_field
    yield "map-keys", map_keys
