"""C18  FunctionTest cases chain sequentially; variant and skipped cases leave no trace."""
import json

from ..values import *
from ..scen import *
from ..rf import judged
from ..ft import *

EXPLANATION = (
    "The FunctionTest runner is interpreted over sequences of up to 20 cases mixing inputOverrides, currentResource, overlayResource (literal and computed), every assertion kind and variant/skip flags, for "
    "Functions of every kind and update policy. Each case is first analysed alone, from the state which the base and the non-variant cases before it imply (inputs overlaid, the object as sent by the "
    "create/patch, nothing after a delete); in the sequence it must give exactly that result. Independently, the sequence without its skipped cases, without its variants, with other variants inserted "
    "anywhere and with variants moved must give every remaining case the same result. The prepared FunctionTest, the Function (with its API class) and the kind lookup memory must be unchanged by a run, "
    "running again must give the same results, and the Function must afterwards reconcile against a cluster as if it had never been tested.")
RULES = ["chained: a case's result is the one it has when started from the state the non-variant cases before it lead to",
         "stops: the runner stops exactly after the first failing non-variant case",
         "skipped: removing cases marked skip changes no other result",
         "variants: removing, inserting and moving variant cases changes no other result",
         "repeatable: running the same FunctionTest again gives the same results",
         "function: the Function under test is unchanged by running its tests",
         "fixtures: inputs, resources and cases of the FunctionTest are unchanged by running it",
         "cluster: after a test run the Function reconciles against a cluster as if it had never been tested",
         "assumed-plural: the plural a test run assumes is not kept by the Function",
         "no-error: running a FunctionTest does not raise"]
FLOOR = {"quick": 12000, "thorough": 80000}

R1 = {"apiVersion": "test.koreo.dev/v1", "kind": "Thing", "metadata": {"name": "thing-1", "namespace": "ns1"}, "spec": {"n": 1, "m": {"k": "v"}, "live": "only"}, "status": {"ready": True}}
R2 = {"apiVersion": "test.koreo.dev/v1", "kind": "Thing", "metadata": {"name": "thing-1", "namespace": "ns1", "labels": {"app": "1", "other": "y"}, "annotations": {"note": "n"}},
      "spec": {"n": 1, "m": {"k": "v"}, "fixed": {"t": True, "l": [1, "two", False], "d": 2.5, "e": ""}, "from": "template"}}
BASE = {"n": 1, "m": {"k": "v"}, "tpl": "x"}

BODIES = [
    {}, {}, {"inputOverrides": {"n": 2}}, {"inputOverrides": {"m": {"k": "w"}}}, {"inputOverrides": {"m": {"more": [1, {"x": True}]}}}, {"inputOverrides": {"bad": True}}, {"inputOverrides": {"skipped": 1}}, {"inputOverrides": {"later": ""}},
    {"inputOverrides": {"blocked": {"by": "x"}}}, {"inputOverrides": {"n": 7, "m": "text"}}, {"inputOverrides": {"tpl": "none"}}, {"currentResource": R1}, {"currentResource": R2}, {"currentResource": R2, "inputOverrides": {"n": 3}},
    {"overlayResource": {"status": {"ready": True}}}, {"overlayResource": {"spec": {"n": 9, "drift": "x"}}}, {"overlayResource": {"status": {"n": "=n + 1", "deep": {"l": [1, 2]}}}}, {"overlayResource": {"status": {"wait": True}}},
    {"overlayResource": {"status": {"broken": {"x": "y"}}}}, {"overlayResource": {"spec": {"m": {"k": "='lit'"}}}, "inputOverrides": {"n": 4}}, {"overlayResource": {"metadata": {"labels": {"app": "other"}}}},
]
STARTS = [(BASE, None), (BASE, R1), (BASE, R2), (None, None), ({"n": 3}, R1)]
VARIANTS = [{"inputOverrides": {"n": 5, "m": {"variant": "yes"}}}, {"inputOverrides": {"bad": True}}, {"currentResource": R1, "inputOverrides": {"m": "variant"}}, {"currentResource": {**R2, "status": {"variant": True}}}, {}]
OVERLAYS = [{"overlayResource": {"status": {"variant": "=n"}}}, {"overlayResource": {"spec": {"variant": {"x": 1}}, "status": {"wait": True}}}, {"overlayResource": {"spec": {"x": "=inputs.nope"}}}]


class Rng:
    def __init__(self, seed):
        self.x = seed * 7919 + 12345

    def __call__(self, n):
        self.x = (self.x * 1103515245 + 12345) % 2 ** 31
        return (self.x >> 8) % n


def show(cases):
    return "; ".join(("variant " if c.get("variant") else "") + ("skip " if c.get("skip") else "") + ",".join(f"{k}={json.dumps(v)[:40]}" for k, v in c.items() if k not in ("variant", "skip", "label")) for c in cases)[:260]


def generate(bench, rng, length, inputs, resource, failing):
    """[(case, result it must have)] for a sequence which goes on until its end unless `failing`."""
    out = []
    ins, res = inputs, resource
    for i in range(length):
        body = dict(BODIES[rng(len(BODIES))])
        if "overlayResource" in body and not res:
            body.pop("overlayResource")
        if "kind" in (res or {}) or "currentResource" in body:
            pass
        variant, skip = rng(3) == 0, rng(6) == 0
        run, found, state = bench.probe(body, ins, res)
        if found is None:
            raise Undecided(run.error)
        choices = truths(bench, run, found, state)
        assertion = choices[rng(len(choices))]
        if variant and rng(3) == 0 or failing == i:
            assertion = untruths(found)[rng(2)]
        case = {**body, **assertion, "label": f"case {i:02}{' variant' if variant else ''}"}
        if variant:
            case["variant"] = True
        if skip:
            case["skip"] = True
        alone = bench.run([{k: v for k, v in case.items()}], ins, res)
        out.append((case, alone, ins, res))
        if not skip and not variant:
            if not (alone.results and alone.results[0].passed):
                break
            ins, res = state[0], state[1]
    return out


def mapped(run):
    return {r.label: r.key() for r in run.results}


def sequences(which, items, tails=None):
    def body(s, later):
        bench = Bench(s, which)
        if not bench.usable():
            later.check(False, "no-error", CASE, f"{which}: the Function is not usable: {s.show(bench.fn)}"[:300])
            return
        for seed, length, start, failing in items:
            rng = Rng(seed)
            tail = one(s, later, bench, which, rng, length, STARTS[start], failing)
            if tails is not None and tail:
                tails[seed] = tail
    return body


def untouched(which, case, ins, res, want):
    """The last case of a sequence, alone, on a Function which nothing was run on before."""
    def body(s, later):
        run = Bench(s, which).run([case], ins, res)
        got = run.results[0].key() if run.results else run.error
        later.check(got == want, "chained", CASE, lambda: f"{which}: {show([case])} from inputs={json.dumps(ins)} resource={json.dumps(res)[:200]} gives {got}, but after other cases {want}"[:700])
    return body


def sequence_scenario(which, items, label):
    def run(rec):
        tails = {}
        judged(rec, sequences(which, items, tails), "chained", label, construct=CASE)
        if tails:
            judged(rec, untouched(which, *tails[max(tails)]), "chained", label, construct=CASE)
    return run


def one(s, later, bench, which, rng, length, start, failing):
    inputs, resource = start
    before = state_of(s, bench)
    seq = generate(bench, rng, length, inputs, resource, failing)
    cases = [c for c, *_ in seq]
    text = lambda: f"{which} inputs={json.dumps(inputs)} resource={'yes' if resource else 'no'}: {show(cases)}"
    chk = lambda cond, rule, more, construct=CASE: later.check(cond, rule, construct, lambda: f"{text()} -- {more() if callable(more) else more}"[:700])
    try:
        ft = bench.prepared(cases, inputs, resource)
    except (PrepareFailed, AExc) as e:
        chk(False, "no-error", f"not prepared: {e}")
        return
    fixture = s.show(ft)
    full = bench.run_prepared(ft)
    if not chk(full.error is None, "no-error", f"raises {full.error}", RUN):
        return
    stop = next((i for i, (c, alone) in enumerate((c, a) for c, a, *_ in seq) if not c.get("variant") and not c.get("skip") and not (alone.results and alone.results[0].passed)), None)
    expected = len(seq) if stop is None else stop + 1
    chk(len(full.results) == expected and bool(full.fatal) == (stop is not None), "stops", lambda: f"{len(full.results)} of {expected} cases were run, fatal={full.fatal}", RUN)
    for (case, alone, *_), got in zip(seq, full.results):
        want = alone.results[0] if alone.results else None
        chk(want is not None and got.key() == want.key(), "chained", lambda: f"{case['label']}: in the sequence {got!r} {got.outcome} {got.differences}, alone {want!r} {want.outcome if want else ''} {want.differences if want else ''}")
    # -- nothing is changed
    chk(s.show(ft) == fixture, "fixtures", "the prepared FunctionTest is changed", RUN)
    unchanged(chk, s, bench, before)
    again = bench.run_prepared(ft)
    chk(again.error is None and again.keys() == full.keys(), "repeatable", lambda: f"the second run gives {again.error or again.results}", RUN)
    have = mapped(full)
    keep = [c for c in cases[:expected]]

    def compare(rule, others, label):
        run = bench.run(others, inputs, resource)
        if not chk(run.error is None, "no-error", lambda: f"{label}: raises {run.error}", RUN):
            return
        got = mapped(run)
        for l, k in got.items():
            if l in have:
                chk(k == have[l], rule, lambda: f"{label}: {l} gives {k}, before {have[l]}")
        for c in keep:
            if c["label"] in {o["label"] for o in others}:
                chk(c["label"] in got, rule, lambda: f"{label}: {c['label']} was not run")
    if any(c.get("skip") for c in keep):
        compare("skipped", [c for c in keep if not c.get("skip")], "without skipped cases")
        compare("skipped", [c if not (c.get("skip") and c.get("variant")) else {**{k: v for k, v in c.items() if k != "skip"}, "label": c["label"] + " enabled"} for c in keep], "with skipped variants enabled")
    if any(c.get("variant") for c in keep):
        compare("variants", [c for c in keep if not c.get("variant")], "without variants")
    more, there = [], bool(resource)
    for i, c in enumerate(keep):
        pool = VARIANTS + (OVERLAYS if overlay_ok(keep[:i], resource, seq) else [])
        extra = dict(pool[rng(len(pool))])
        more.append({**extra, "expectReturn": {"zz": "no"}, "variant": True, "label": f"extra {i:02} variant"})
        more.append(c)
    compare("variants", more[:20] if len(more) > 20 else more, "with variants inserted")
    others = [c for c in keep if not c.get("variant")]
    moved = [c for c in keep if c.get("variant") and "overlayResource" not in c]
    for c in moved:
        others.insert(rng(len(others) + 1), {**c, "label": c["label"] + " moved"})
    if moved:
        compare("variants", others, "with variants moved")
    last = min(len(full.results), len(seq)) - 1
    return (seq[last][0], seq[last][2], seq[last][3], full.results[last].key()) if last > 0 else None


def overlay_ok(prefix, resource, seq):
    """Is there certainly a resource to overlay after these cases?"""
    if not resource:
        return False
    return all("delete" not in [op for op, _ in alone.events] for c, alone, *_ in seq[:len(prefix)])


def state_of(s, bench):
    ip = s.ip
    fn = ip.force(s.call(LOOKUP, resource_class=s.get(PREPARERS[bench.kind][1]), cache_key=bench.name))
    out = {"same": fn is bench.fn, "fn": s.show(fn)}
    if bench.rf:
        api = ip.force(s.attr(s.attr(fn, "crud_config"), "resource_api"))
        out["api"] = {n: s.show(ip.getattr_(api, n)) for n in ("kind", "version", "plural", "endpoint", "singular", "namespaced")}
    return out


def assumed(bench):
    """The plurals the runner may assume for a Function without one."""
    api = bench.spec["apiConfig"]
    return () if "plural" in api else (api["kind"].lower(), f"{api['kind']}.{api['apiVersion']}".lower())


def unchanged(chk, s, bench, before):
    now = state_of(s, bench)
    if bench.rf:
        plurals = [s.show(x) for x in assumed(bench)]
        kept = [n for n in ("plural", "endpoint") if now["api"][n] != before["api"][n] and now["api"][n] in plurals]
        chk(not kept, "assumed-plural", lambda: f"the Function keeps {now['api']['plural']} as its plural", RUN)
        if kept:
            now = {**now, "fn": before["fn"], "api": {**now["api"], **{n: before["api"][n] for n in kept}}}
    chk(now == before, "function", lambda: f"the Function is changed: {differ(before, now)}")


def differ(a, b):
    return {k: (a[k], b[k]) for k in a if a[k] != b[k] and k != "fn"} or "definition"


IRREGULAR = {"Mouse": "mice", "Goose": "geese", "Thing": "things"}


def cluster_after(which, order):
    """The Function reconciles the same way whether or not it was tested before."""
    def against(s, bench):
        ip = s.ip
        c = Cluster(ip)
        for k, p in IRREGULAR.items():
            c.lookups[k] = lambda k=k, p=p: (p, p, True)
        n = len(ip.events)
        outs = [s.out(reconcile_rf(s, bench.fn, c, BASE)[0])[:3] for _ in range(3)]
        return outs, [(e.data["op"], ip.force(e.data["endpoint"]), wire(ip, e.data["payload"]) if e.data.get("payload") else None) for e in mutations(ip.events[n:])]

    def tests(s, later, bench):
        kind = bench.spec["apiConfig"]["kind"]
        cases = [{"label": "one", "expectReturn": {"zz": "no"}, "variant": True}, {"label": "two", "currentResource": {**R2, "kind": kind}, "expectReturn": {"zz": "no"}, "variant": True}, {"label": "three", "expectReturn": {"zz": "no", "n": 1}}]
        for r in (None, {**R1, "kind": kind}):
            run = bench.run(cases, BASE, r)
            later.check(run.error is None, "no-error", RUN, lambda: f"{which}: raises {run.error}")

    ref = {}

    def untested(s, later):
        ref["outs"], ref["ops"] = against(s, Bench(s, which))

    def tested(s, later):
        bench = Bench(s, which)
        if order == "between":
            against(s, bench)
        tests(s, later, bench)
        outs, ops = against(s, bench)
        endpoint = bench.spec["apiConfig"].get("plural") or IRREGULAR[bench.spec["apiConfig"]["kind"]]
        wrong = [ep for _, ep, _ in ops if ep in assumed(bench)]
        later.check(not wrong, "assumed-plural", RUN, lambda: f"{which} ({order}): after its tests the Function uses {wrong[0]}, not {endpoint}")
        ops = [(op, endpoint if ep in assumed(bench) else ep, payload) for op, ep, payload in ops]
        later.check(ops == ref["ops"] and outs == ref["outs"], "cluster", CASE, lambda: f"{which} ({order}): {outs} {ops} but without tests {ref}"[:700])
        for op, ep, _ in ops:
            later.check(ep == endpoint, "cluster", CASE, lambda: f"{which} ({order}): {op} is sent to {ep}, expected {endpoint}")

    def run(rec):
        judged(rec, untested, "cluster", f"{which} untested", construct=CASE)
        judged(rec, tested, "cluster", f"{which} {order}", construct=CASE)
    return run


def scenarios(chk, tier):
    J = lambda body, label, rule="chained": lambda rec: judged(rec, body, rule, label, construct=CASE)
    deep = tier != "quick"
    n = 21 if not deep else 150
    for w, which in enumerate(functions()):
        items = []
        for i in range(n):
            length = (3, 5, 8, 12, 4, 20)[i % 6]
            items.append((w * 1000 + i, length, i % len(STARTS), None if i % 3 else i % length))
        for i in range(0, n, 3):
            yield f"seq-{which}:{i}", sequence_scenario(which, items[i:i + 3], f"{which} {i}")
        if functions()[which][0] == "ResourceFunction":
            for order in ("tested", "between"):
                yield f"cluster-{which}-{order}", cluster_after(which, order)
