"""C02  Workflow result is independent of step completion order."""
import itertools

from ..values import *
from ..scen import *
from ..wf import *

EXPLANATION = (
    "Interference analysis of reconcile_workflow: the concurrent tasks are interpreted on a modelled event loop; for each workflow shape and each "
    "combination of step outcomes, every schedule (every permutation of the API latencies of the concurrently running steps or iterations, equal "
    "latencies with both ready orders, and slow-read/slow-write mixes) is a separate path, and the abstract Result (outcomes, overall, state, "
    "conditions, resource ids) and final cluster contents must be the same on all of them.")
RULES = ["confluence: all schedules of one case give the same Result and cluster contents",
         "foreach-order: forEach results are in source order, each computed from its own item",
         "state-merge: state is merged in listed step order (a later step's value wins)",
         "conditions-order: conditions are in listed step order"]
FLOOR = {"quick": 1500, "thorough": 5000}
R = "koreo.workflow.reconcile.reconcile_workflow"
EACH = "koreo.workflow.reconcile._for_each_reconciler"


def schedules(names, thorough=False):
    """Latency assignments: label -> delay"""
    lat = (0.25, 1.0, 2.5, 0.5, 1.75)[:len(names)]
    perms = list(itertools.permutations(lat))
    if len(perms) > 6 and not thorough:
        perms = [perms[0], perms[-1], perms[len(perms) // 2], perms[5], perms[9], perms[14]]
    out = [("zero", None, False), ("zero-reversed", None, True)]
    for q in perms:
        d = dict(zip(names, q))
        out.append((f"{q}", (lambda d: lambda ip, label: next((t for n, t in d.items() if label.split(":")[-1] == n), 0.1))(d), False))
    out.append(("slow-writes", lambda ip, label: 0.1 if label.startswith("get") else 1.5 if label.endswith(names[0]) else 0.7, False))
    out.append(("slow-lookup", lambda ip, label: 2 if label.startswith("lookup") else 0.2, False))
    out.append(("fast-lookup", lambda ip, label: 0.1 if label.startswith("lookup") else 0.3 if label.endswith(names[-1]) else 1.2, True))
    return out


def confluence(rec, build, names, construct=R, judge=None):
    """build(s) -> (case, spec, cluster, trigger); compares all schedules per case"""
    scheds = schedules(names, rec.thorough)
    seen = {}

    def scen(s):
        ip = s.ip
        case, wf, c, trig = build(s)
        n, lat, rev = scheds[ip.choose(len(scheds), "schedule")]
        ip.loop.latency, ip.loop.reverse = lat, rev
        r = run_workflow(s, wf, c, trig)
        store = {k: wire(ip, v) for k, v in c.store.items()}
        for o in store.values():
            md = o.get("metadata", {})
            for f in ("uid", "resourceVersion"):
                md.pop(f, None)
        return case, n, r, {k: freeze(ip, s.attr(r, k)) for k in ("result", "conditions", "resource_ids", "state", "state_errors")}, repr(sorted(store.items(), key=repr))

    for p in rec.explore(scenario(rec.chk, scen)):
        if p.error:
            rec.check(p.error[0] == "abort", "confluence", construct, lambda: f"reconcile ends with {p.error[0]} {getattr(p.error[1], 'value', p.error[1])!r}", p)
            continue
        s, (case, n, r, parts, store) = p.outcome
        parts["cluster"] = store
        first_ = seen.setdefault(case, (n, parts))
        for k in parts:
            rec.check(parts[k] == first_[1][k], "confluence", f"{construct}:{k}",
                      lambda: f"case {case}: {k} differs between schedule {first_[0]} ({first_[1][k]!r}) and {n} ({parts[k]!r})", p)
        if judge:
            judge(s, p, case, r)


STATES = ("match", "drift", "absent", "readonly", "waiting", "skip", "fail")


def rf_for(s, name, state, c, **over):
    api = {"name": name, "readonly": state in ("readonly", "waiting")}
    api.update(over.pop("api", {}))
    pre = {"skip": [{"assert": "=inputs.no", "skip": {"message": f"skip {name}"}}], "fail": [{"assert": "=inputs.no", "permFail": {"message": f"fail {name}"}}]}.get(state)
    if pre:
        over["preconditions"] = pre
    s.cache("ResourceFunction", f"rf-{name}", rf_spec(api=api, resource={"spec": {"a": 1, "b": "two", "n": "=inputs.n"}},
                                                      **{"return": {"n": "=inputs.n", "live": "=resource.spec.n", "name": "=resource.metadata.name"}, **over}))
    if state in ("match", "readonly"):
        c.put("things", "ns1", name, thing(name, n=name))
    elif state == "drift":
        c.put("things", "ns1", name, thing(name, n="other"))


def independent(n):
    names = ["obj-a", "obj-b", "obj-c"][:n]

    def build(s):
        ip = s.ip
        c = Cluster(ip)
        case = tuple(STATES[ip.choose(len(STATES), nm)] for nm in names)
        steps = []
        for nm, st in zip(names, case):
            rf_for(s, nm, st, c)
            steps.append({"label": f"step_{nm[-1]}", "ref": {"kind": "ResourceFunction", "name": f"rf-{nm}"}, "inputs": {"n": nm, "no": False},
                          "condition": {"type": f"Type{nm[-1]}", "name": nm}, "state": {"shared": "=value.n", f"own_{nm[-1]}": "=value.live"}})
        s.cache("ValueFunction", "vf", {"return": {"v": "=inputs.x"}})
        steps.append({"label": "last", "ref": {"kind": "ValueFunction", "name": "vf"}, "inputs": {"x": "=steps.step_a.n"}, "condition": {"type": "Last", "name": "last"},
                      "state": {"shared": "=value.v + '!'"}})
        wf, _ = s.prepare("Workflow", "wf", {"steps": steps})
        return case, wf, c, {}

    def run(rec):
        def judge(s, p, case, r):
            want = None
            for nm, st in zip(names, case):
                if st in ("match", "readonly"):
                    want = nm
            if case[0] in ("match", "readonly"):
                want = "obj-a!"
            st = plain(s.ip, s.attr(r, "state"))
            rec.check(st.get("shared") == want, "state-merge", "koreo.workflow.reconcile._reconcile_steps", lambda: f"steps {case}: merged state has shared={st.get('shared')!r}, expected {want!r}", p)
            types = list(condition_classes(s, r))
            exp = [f"Type{nm[-1]}" for nm in names] + ["Last", "Ready"]
            rec.check(types == exp, "conditions-order", "koreo.workflow.reconcile._reconcile_steps", lambda: f"conditions are {types}, expected {exp}", p)
        confluence(rec, build, names, judge=judge)
    return run


def for_each(logic, variant, first_state=None):
    names = ["obj-a", "obj-b", "obj-c"]

    def build(s):
        ip = s.ip
        c = Cluster(ip)
        if variant == "outcomes":
            case = (first_state,) + tuple(("match", "absent", "skip", "fail", "retry")[ip.choose(5, nm)] for nm in names[1:])
        else:
            case = tuple(("match", "drift")[ip.choose(2, nm)] for nm in names)
        for nm, st in zip(names, case):
            if st == "match":
                c.put("things", "ns1", nm, thing(nm, n=nm, tag={"x": "base", "y": nm}))
            elif st == "drift":
                c.put("things", "ns1", nm, thing(nm, n="other"))
        pre = [{"assert": "=inputs.it.st != 'skip'", "skip": {"message": "=inputs.it.name"}}, {"assert": "=inputs.it.st != 'fail'", "permFail": {"message": "=inputs.it.name"}},
               {"assert": "=inputs.it.st != 'retry'", "retry": {"message": "=inputs.it.name", "delay": 20}}]
        s.cache("ResourceFunction", "rf", rf_spec(api={"name": "=inputs.it.name", "readonly": variant == "readonly", **({"plural": ...} if variant == "lookup" else {})}, preconditions=pre,
                                                  locals={"t": "={'x': inputs.common.tag, 'y': inputs.it.name}"},
                                                  resource={"spec": {"a": 1, "b": "two", "n": "=inputs.it.name", "tag": "=locals.t"}},
                                                  **{"return": {"n": "=inputs.it.name", "live": "=resource.metadata.name", "common": "=inputs.common"}}))
        ref = {"kind": "ResourceFunction", "name": "rf"}
        st = {"label": "each", "forEach": {"itemIn": "=parent.items", "inputKey": "it"}, "inputs": {"common": {"tag": "base", "l": [1, 2]}}, "condition": {"type": "Each", "name": "each"},
              "state": {"all": "=value"}}
        if logic == "wf":
            s.cache("Workflow", "sub", {"steps": [{"label": "inner", "ref": ref, "inputs": {"it": "=parent.it", "common": "=parent.common"}, "condition": {"type": "Inner", "name": "inner"},
                                                   "state": {"n": "=value.n", "live": "=value.live"}}]})
            st["ref"] = {"kind": "Workflow", "name": "sub"}
        elif logic == "switch":
            st["refSwitch"] = {"switchOn": "=inputs.it.name", "cases": [{"case": "obj-b", "kind": "ResourceFunction", "name": "rf"}, {"case": "zz", "default": True, "kind": "ResourceFunction", "name": "rf"}]}
        else:
            st["ref"] = ref
        wf, _ = s.prepare("Workflow", "wf", {"steps": [st]})
        return case, wf, c, {"items": [{"name": nm, "st": x} for nm, x in zip(names, case)]}

    def run(rec):
        def judge(s, p, case, r):
            if s.kind(s.attr(r, "result")) != "value" or "skip" in case:
                return
            st = plain(s.ip, s.attr(r, "state")).get("all")
            if st is None:
                return
            good = isinstance(st, list) and len(st) == len(names) and all(isinstance(x, dict) and x.get("n") == nm and x.get("live") == nm for x, nm in zip(st, names))
            rec.check(good, "foreach-order", EACH, lambda: f"forEach over {names} gives {st!r}", p)
        confluence(rec, build, names, construct=EACH, judge=judge)
    return run


def shared_template(rec):
    """Steps materialising the same cached template and the same function concurrently."""
    names = ["obj-a", "obj-b", "obj-c"]

    def build(s):
        ip = s.ip
        c = Cluster(ip)
        case = tuple(("absent", "match")[ip.choose(2, nm)] for nm in names)
        s.cache("ResourceTemplate", "tpl", {"template": {"apiVersion": "test.koreo.dev/v1", "kind": "Thing", "metadata": {"labels": {"l": "base"}}, "spec": {"a": 1, "b": "two", "m": {"k": "t"}, "list": [{"q": 1}]}}})
        s.cache("ValueFunction", "ov", {"return": {"spec": {"m": {"o": "=inputs.name"}}}})
        s.cache("ResourceFunction", "rf", rf_spec(api={"name": "=inputs.name"}, resourceTemplateRef={"name": "tpl"},
                                                  overlays=[{"overlay": {"metadata": {"labels": {"n": "=inputs.name"}}, "spec": {"m": {"k": "=inputs.name"}}}},
                                                            {"overlayRef": {"kind": "ValueFunction", "name": "ov"}, "inputs": {"name": "=inputs.name"}},
                                                            {"skipIf": "=inputs.name != 'obj-b'", "overlay": {"spec": {"only": "b"}}}],
                                                  create={"delay": 11, "overlay": {"spec": {"created": "=inputs.name"}}},
                                                  **{"return": {"spec": "=resource.spec"}}))
        for nm, st in zip(names, case):
            if st == "match":
                o = thing(nm, m={"k": nm, "o": nm}, list=[{"q": 1}], **({"only": "b"} if nm == "obj-b" else {}))
                o["metadata"]["labels"] = {"l": "base", "n": nm}
                c.put("things", "ns1", nm, o)
        steps = [{"label": f"step_{nm[-1]}", "ref": {"kind": "ResourceFunction", "name": "rf"}, "inputs": {"name": nm}, "condition": {"type": f"T{nm[-1]}", "name": nm}, "state": {nm[-1]: "=value"}} for nm in names]
        wf, _ = s.prepare("Workflow", "wf", {"steps": steps})
        return case, wf, c, {}

    def judge(s, p, case, r):
        cl = condition_classes(s, r)
        for nm, st in zip(names, case):
            want = "Ok" if st == "match" else "Retry"
            rec.check(cl.get(f"T{nm[-1]}") == want, "confluence", R, lambda: f"case {case}: step for {nm} is {cl.get(f'T{nm[-1]}')}, expected {want}", p)
    confluence(rec, build, names, judge=judge)


def graph(rec):
    """Diamond with nested workflow, forEach in the middle and different outcome classes."""
    names = ["obj-a", "obj-b", "obj-c", "obj-d"]

    def build(s):
        ip = s.ip
        c = Cluster(ip)
        opts = ("readonly", "waiting", "absent", "skip", "fail")
        case = ("readonly",) + tuple(opts[ip.choose(len(opts) if i else 2, nm)] for i, nm in enumerate(names[1:3])) + ("match",)
        for nm, st in zip(names, case):
            rf_for(s, nm, st, c)
        s.cache("Workflow", "sub", {"steps": [{"label": "inner", "ref": {"kind": "ResourceFunction", "name": "rf-obj-b"}, "inputs": {"n": "=parent.n", "no": False}, "state": {"n": "=value.n"}},
                                              {"label": "inner2", "ref": {"kind": "ResourceFunction", "name": "rf-obj-c"}, "inputs": {"n": "obj-c", "no": False}, "state": {"n": "=value.n", "c": "=value.live"}}]})
        steps = [
            {"label": "top", "ref": {"kind": "ResourceFunction", "name": "rf-obj-a"}, "inputs": {"n": "obj-a", "no": False}, "condition": {"type": "Top", "name": "top"}, "state": {"n": "=value.n"}},
            {"label": "left", "ref": {"kind": "Workflow", "name": "sub"}, "inputs": {"n": "=steps.top.n == 'obj-a' ? 'obj-b' : 'x'"}, "condition": {"type": "Left", "name": "left"}, "state": {"n": "=value.n", "l": "=value"}},
            {"label": "right", "ref": {"kind": "ResourceFunction", "name": "rf-obj-d"}, "forEach": {"itemIn": "=['obj-d', 'obj-d']", "inputKey": "n"}, "inputs": {"no": False, "u": "=steps.top.live"}, "condition": {"type": "Right", "name": "right"},
             "state": {"n": "=value[0].n"}},
            {"label": "bottom", "ref": {"kind": "ResourceFunction", "name": "rf-obj-d"}, "inputs": {"n": "=steps.right[0].n", "no": "=false", "w": "=steps.left.n"}, "condition": {"type": "Bottom", "name": "bottom"}, "state": {"n": "=value.n + '!'"}},
        ]
        wf, _ = s.prepare("Workflow", "wf", {"steps": steps})
        return case, wf, c, {}
    confluence(rec, build, names)


def lookups(rec):
    """Steps whose kind needs a plural lookup, alone and shared."""
    names = ["obj-a", "obj-b", "obj-c"]

    def build(s):
        ip = s.ip
        c = Cluster(ip)
        case = tuple(("match", "absent")[ip.choose(2, nm)] for nm in names)
        same_fn = ip.choose(2, "same-function")
        kinds = ["Thing", "Thing", "Other"]
        steps = []
        for nm, st, k in zip(names, case, kinds):
            api = {"kind": k, "name": "=inputs.n", "plural": ...}
            fn = "rf-Thing" if same_fn and k == "Thing" else f"rf-{nm}"
            s.cache("ResourceFunction", fn, rf_spec(api=api, resource={"spec": {"a": 1, "b": "two"}}, **{"return": {"n": "=inputs.n"}}))
            if st == "match":
                o = thing(nm)
                o["kind"] = k
                c.put({"Thing": "things", "Other": "others"}[k], "ns1", nm, o)
            steps.append({"label": f"step_{nm[-1]}", "ref": {"kind": "ResourceFunction", "name": fn}, "inputs": {"n": nm}, "condition": {"type": f"T{nm[-1]}", "name": nm}, "state": {"last": "=value.n"}})
        wf, _ = s.prepare("Workflow", "wf", {"steps": steps})
        return (case, same_fn), wf, c, {}

    def judge(s, p, case, r):
        cl = condition_classes(s, r)
        for nm, st in zip(names, case[0]):
            want = "Ok" if st == "match" else "Retry"
            rec.check(cl.get(f"T{nm[-1]}") == want, "confluence", "koreo.resource_function.reconcile.kind_lookup.get_plural_kind",
                      lambda: f"case {case}: step for {nm} is {cl.get(f'T{nm[-1]}')}, expected {want}", p)
    confluence(rec, build, names, judge=judge)


def state_shapes(rec):
    """State publishers that fail, are skipped, publish nothing or nested maps."""
    names = ["obj-a", "obj-b"]

    def build(s):
        ip = s.ip
        c = Cluster(ip)
        shapes = [{"k": "=value.n"}, {"k": "=value.absent"}, {"k": {"n": "=value.n"}}, {"m": "=value"}, None]
        idx = [ip.choose(len(shapes), "state-a"), ip.choose(len(shapes), "state-b")]
        steps = []
        for nm, i in zip(names, idx):
            rf_for(s, nm, "readonly", c)
            st = {"label": f"step_{nm[-1]}", "ref": {"kind": "ResourceFunction", "name": f"rf-{nm}"}, "inputs": {"n": nm}, "condition": {"type": f"T{nm[-1]}", "name": nm}}
            if shapes[i] is not None:
                st["state"] = shapes[i]
            steps.append(st)
        wf, _ = s.prepare("Workflow", "wf", {"steps": steps})
        return tuple(idx), wf, c, {}

    def judge(s, p, case, r):
        st = plain(s.ip, s.attr(r, "state"))
        want = {}
        for nm, i in zip(names, case):
            v = {"n": nm, "live": nm, "name": nm}
            want.update([{"k": nm}, {}, {"k": {"n": nm}}, {"m": v}, {}][i])
        rec.check(same(st, want), "state-merge", "koreo.workflow.reconcile._reconcile_steps", lambda: f"state shapes {case}: merged state {st!r}, expected {want!r}", p)
        bad = {s.ip.force(k) for k, _ in s.ip.dict_items(s.ip.force(s.attr(r, "state_errors")))}
        exp = {f"step_{nm[-1]}" for nm, i in zip(names, case) if i == 1}
        rec.check(bad == exp, "state-merge", "koreo.workflow.reconcile._reconcile_steps", lambda: f"state shapes {case}: state errors for {sorted(bad)}, expected {sorted(exp)}", p)
    confluence(rec, build, names, judge=judge)


def value_aliasing(rec):
    """Steps and iterations that receive the same value and overlay it."""
    names = ["obj-a", "obj-b"]

    def build(s):
        ip = s.ip
        c = Cluster(ip)
        order = ip.choose(2, "order")
        rf_for(s, "obj-a", "readonly", c)
        rf_for(s, "obj-b", "readonly", c)
        s.cache("ValueFunction", "vf", {"locals": {"m": "=inputs.m"}, "return": {"m": "=inputs.m", "o": {"deep": {"x": "=inputs.tag"}}, "w": "=inputs.w"}})
        src = {"label": "src", "ref": {"kind": "ValueFunction", "name": "vf"}, "inputs": {"m": "=parent.m", "tag": "src", "w": "0"}}
        a = {"label": "wait_a", "ref": {"kind": "ResourceFunction", "name": "rf-obj-a"}, "inputs": {"n": "obj-a"}}
        b = {"label": "wait_b", "ref": {"kind": "ResourceFunction", "name": "rf-obj-b"}, "inputs": {"n": "obj-b"}}
        u = {"label": "use_a", "ref": {"kind": "ValueFunction", "name": "vf"}, "inputs": {"m": "=steps.src.m", "tag": "A", "w": "=steps.wait_a.n"}, "state": {"a": "=value"}}
        v = {"label": "use_b", "ref": {"kind": "ValueFunction", "name": "vf"}, "inputs": {"m": "=steps.src.m.overlay({'z': {'y': 'B'}})", "tag": "B", "w": "=steps.wait_b.n"}, "state": {"b": "=value"}}
        e = {"label": "use_e", "ref": {"kind": "ValueFunction", "name": "vf"}, "inputs": {"m": "=steps.src.m", "w": "=steps.wait_a.n"}, "forEach": {"itemIn": "=['1', '2']", "inputKey": "tag"}, "state": {"e": "=value"}}
        wf, _ = s.prepare("Workflow", "wf", {"steps": [src, a, b] + ([u, v, e] if order else [e, v, u])})
        return (order,), wf, c, {"m": {"z": {"y": "Y", "l": [1]}, "k": "K"}}

    def judge(s, p, case, r):
        st = plain(s.ip, s.attr(r, "state"))
        m = {"z": {"y": "Y", "l": [1]}, "k": "K"}
        want = {"a": {"m": m, "o": {"deep": {"x": "A"}}, "w": "obj-a"}, "b": {"m": {"z": {"y": "B", "l": [1]}, "k": "K"}, "o": {"deep": {"x": "B"}}, "w": "obj-b"},
                "e": [{"m": m, "o": {"deep": {"x": t}}, "w": "obj-a"} for t in ("1", "2")]}
        for k in want:
            rec.check(same(st.get(k), want[k]), "foreach-order" if k == "e" else "confluence", R if k != "e" else EACH, lambda: f"published {k} = {st.get(k)!r}, expected {want[k]!r}", p)
    confluence(rec, build, names, judge=judge)


def scenarios(chk, tier):
    chk.get(R)
    yield "independent/2", independent(2)
    if tier == "thorough":
        yield "independent/3", independent(3)
    for logic in ("rf", "wf", "switch"):
        for variant in ("plain", "readonly", "lookup", "outcomes"):
            if variant == "outcomes" and (logic == "wf" or logic == "switch" and tier != "thorough"):
                continue
            if variant == "outcomes":
                for fs in ("match", "absent", "skip", "fail", "retry"):
                    yield f"forEach/{logic}/{variant}/{fs}", for_each(logic, variant, fs)
                continue
            yield f"forEach/{logic}/{variant}", for_each(logic, variant)
    yield "template", shared_template
    yield "graph", graph
    yield "lookups", lookups
    yield "state", state_shapes
    yield "aliasing", value_aliasing
