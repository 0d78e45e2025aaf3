"""C06  Managed object identity is pinned to apiConfig."""
import copy
import itertools
import json

from ..values import *
from ..scen import *
from ..rf import *

EXPLANATION = (
    "Taint-style path rule: every source that contributes to a payload (inline resource, ResourceTemplate, inline overlays, overlay functions, create overlay, inputs, and pairs of "
    "them) carries hostile identity values of every shape; on every path to a create, patch or delete the payload's apiVersion/kind/metadata.name/metadata.namespace and the "
    "address of the request must be the values apiConfig evaluates to. Sequences and interleavings of invocations of one prepared function with different names are included.")
RULES = ["payload-identity: the object sent carries apiConfig's apiVersion, kind, name and (namespaced) namespace",
         "address: every request is addressed to that kind, name and namespace",
         "reaches: a hostile source does not keep the object from being managed (anti-vacuity)"]
FLOOR = {"quick": 2500, "thorough": 9000}

HOSTILE = {
    "all": {"apiVersion": "evil.io/v9", "kind": "Evil", "metadata": {"name": "evil", "namespace": "evil-ns"}},
    "meta-string": {"metadata": "evil"},
    "meta-null": {"metadata": None},
    "meta-list": {"metadata": [{"name": "evil"}]},
    "meta-empty": {"metadata": {}},
    "meta-number": {"metadata": 5},
    "kind-only": {"kind": "Evil"},
    "version-only": {"apiVersion": "evil.io/v9"},
    "kind-odd": {"kind": {"x": "Evil"}, "apiVersion": ["evil"]},
    "kind-null": {"kind": None, "apiVersion": None},
    "name-only": {"metadata": {"name": "evil"}},
    "ns-only": {"metadata": {"namespace": "evil-ns"}},
    "name-odd": {"metadata": {"name": {"a": "evil"}, "namespace": ["evil-ns"]}},
    "name-null": {"metadata": {"name": None, "namespace": None}},
    "name-empty": {"metadata": {"name": "", "namespace": ""}},
    "generate": {"metadata": {"generateName": "evil-", "labels": {"name": "evil"}}},
    "input-meta": {"metadata": "=inputs.evil.metadata", "kind": "=inputs.evil.kind", "apiVersion": "=inputs.evil.apiVersion"},
    "input-name": {"metadata": {"name": "=inputs.evil.metadata.name", "namespace": "='evil' + '-ns'"}},
    "rewrite": {"metadata": "=inputs.evil.metadata.overlay({'name': 'evil2', 'namespace': 'evil2-ns'})"},
}
EVIL = HOSTILE["all"]
SOURCES = ("resource", "template", "overlay", "overlay-last", "function", "function-base", "create")
STATIC = [h for h, d in HOSTILE.items() if "=" not in str(d)]


def build_spec(s, parts, api):
    """parts: {source: hostile doc}"""
    over = {"api": api, "resource": {"spec": {"a": 1, "b": "two"}}}
    overlays = []
    if "template" in parts:
        over.pop("resource")
        t = copy.deepcopy(parts["template"])
        t = {"apiVersion": "test.koreo.dev/v1", "kind": "Thing", "spec": {"a": 1, "b": "two"}, **t}
        s.cache("ResourceTemplate", "tpl", {"template": t})
        over["resourceTemplateRef"] = {"name": "tpl"}
    if "resource" in parts:
        over["resource"] = {"spec": {"a": 1, "b": "two"}, **copy.deepcopy(parts["resource"])}
    if "overlay" in parts:
        overlays.append({"overlay": {"spec": {"o": 1}, **copy.deepcopy(parts["overlay"])}})
        overlays.append({"overlay": {"spec": {"p": 1}}})
    if "function" in parts:
        s.cache("ValueFunction", "vf-evil", {"return": {"spec": {"f": 1}, **copy.deepcopy(parts["function"])}})
        overlays.append({"overlayRef": {"kind": "ValueFunction", "name": "vf-evil"}, "inputs": {"evil": "=inputs.evil"}})
    if "function-base" in parts:
        s.cache("ValueFunction", "vf-base", {"return": {"spec": {"g": 1}, "metadata": "=has(resource.metadata) ? resource.metadata.overlay({'name': 'evil', 'namespace': 'evil-ns'}) : {'name': 'evil'}",
                                                        **{k: v for k, v in parts["function-base"].items() if k != "metadata"}}})
        overlays.append({"overlayRef": {"kind": "ValueFunction", "name": "vf-base"}, "inputs": {"evil": "=inputs.evil"}})
    if "overlay-last" in parts:
        overlays.append({"skipIf": "=inputs.no", "overlay": {"spec": {"q": 1}, **copy.deepcopy(parts["overlay-last"])}})
    if overlays:
        over["overlays"] = overlays
    if "create" in parts:
        over["create"] = {"delay": 9, "overlay": {"spec": {"c": 1}, **copy.deepcopy(parts["create"])}}
    return over


APIS = {
    "static": ({}, "thing-1", "ns1", True),
    "inputs": ({"name": "=inputs.n", "namespace": "=inputs.ns"}, "in-name", "in-ns", True),
    "locals": ({"name": "=locals.n + '-x'", "namespace": "=locals.ns"}, "in-name-x", "in-ns", True),
    "cluster": ({"namespaced": False, "namespace": ...}, "thing-1", None, False),
    "lookup": ({"plural": ...}, "thing-1", "ns1", True),
    "owned": ({"owned": True}, "thing-1", "ns1", True),
}
INPUTS = {"n": "in-name", "ns": "in-ns", "no": False, "evil": EVIL}


def judge(later, s, evs, name, ns, namespaced, what, endpoint="things"):
    ip = s.ip
    for e in evs:
        d = e.data
        op = d["op"]
        if op == "lookup":
            continue
        if op == "get":
            later.check([ip.force(n) for n in d["names"]] == [name], "address", KRM, lambda: f"{what}: reads {d['names']!r}, apiConfig names {name!r}", event=e)
            if namespaced:
                later.check(ip.force(d["namespace"]) == ns, "address", KRM, lambda: f"{what}: reads in namespace {ip.force(d['namespace'])!r}, expected {ns!r}", event=e)
            continue
        later.check(ip.force(d["version"]) == "test.koreo.dev/v1" and ip.force(d["kind"]) == "Thing" and ip.force(d["endpoint"]) == endpoint, "address", KRM,
                    lambda: f"{what}: {op} addressed to {ip.force(d['version'])}/{ip.force(d['endpoint'])}", event=e)
        later.check(ip.force(d["namespace"]) == ns, "address", KRM, lambda: f"{what}: {op} addressed to namespace {ip.force(d['namespace'])!r}, expected {ns!r}", event=e)
        if op != "create":
            later.check(ip.force(d["name"]) == name, "address", KRM, lambda: f"{what}: {op} addressed to {ip.force(d['name'])!r}, expected {name!r}", event=e)
        if d.get("payload") is None:
            continue
        body = wire(ip, d["payload"])
        md = body.get("metadata")
        got = (body.get("apiVersion"), body.get("kind"), md.get("name") if isinstance(md, dict) else None, md.get("namespace") if isinstance(md, dict) else None)
        want = ("test.koreo.dev/v1", "Thing", name, ns)
        if not namespaced:
            got, want = got[:3], want[:3]
        later.check(got == want, "payload-identity", f"{KRM}:{op}", lambda: f"{what}: {op} payload carries {got!r}, apiConfig evaluates to {want!r}", event=e)
        _, text = without_annotation(body)
        try:
            last = json.loads(text) if isinstance(text, str) else None
        except ValueError:
            last = None
        if isinstance(last, dict) and op == "create":
            # The client library writes the class's kind into what it posts; the recorded copy is what was handed to it.
            lm = last.get("metadata")
            rec_ = (last.get("apiVersion"), last.get("kind"), lm.get("name") if isinstance(lm, dict) else None, lm.get("namespace") if isinstance(lm, dict) else None)
            if not namespaced:
                rec_ = rec_[:3]
            later.check(rec_ == want, "payload-identity", f"{KRM}:{op}", lambda: f"{what}: {op} was handed an object carrying {rec_!r}, apiConfig evaluates to {want!r}", event=e)


def single(sources, api_name, hostiles, second=None):
    def run(rec):
        def body(s, later):
            ip = s.ip
            api, name, ns, namespaced = APIS[api_name]
            for src, h in itertools.product(sources, hostiles):
                if src == "template" and h not in STATIC:
                    continue
                parts = {src: HOSTILE[h]}
                if src == "template":
                    t = HOSTILE[h]
                    if t.get("apiVersion", "x") is None or not isinstance(t.get("apiVersion", "x"), str) or not isinstance(t.get("kind", "x"), str):
                        continue
                for src2, h2 in (second or [(None, None)]):
                    both = dict(parts)
                    if src2:
                        if src2 == src:
                            continue
                        if src2 == "template" and h2 not in STATIC:
                            continue
                        both[src2] = HOSTILE[h2]
                    what = f"{' and '.join(f'{a}:{h if a == src else h2}' for a in both)} ({api_name})"
                    over = build_spec(s, both, api)
                    for upd in ("patch", "recreate"):
                        try:
                            fn, _ = s.prepare("ResourceFunction", "rf", rf_spec(update={upd: {"delay": 7}}, locals={"n": "=inputs.n", "ns": "=inputs.ns"}, **copy.deepcopy(over)))
                        except PrepareFailed:
                            # rejected before anything runs (schema): nothing can be sent
                            later.check(True, "payload-identity", KRM, "")
                            continue
                        for state in ("absent", "differs"):
                            if state == "absent" and upd == "recreate":
                                continue
                            c = Cluster(ip)
                            if state == "differs":
                                o = {"apiVersion": "test.koreo.dev/v1", "kind": "Thing", "metadata": {"name": name, "uid": "u", **({"namespace": ns} if ns else {})}, "spec": {"a": 2}}
                                c.put("things", ns, name, o)
                                c.put("things", "evil-ns", "evil", {**o, "metadata": {"name": "evil", "namespace": "evil-ns", "uid": "e"}})
                            n = len(ip.events)
                            a = one_pass(s, fn, c, INPUTS)
                            judge(later, s, [e for e in ip.events[n:] if e.kind == "api"], name, ns, namespaced, what)
                            want = {"absent": ["create"], "differs": ["patch"] if upd == "patch" else ["delete"]}[state]
                            weak = any(a2 in ("function-base",) for a2 in both) or not soft(both)
                            if not weak:
                                later.check(a.ops == want, "reaches", KRM, lambda: f"{what} {state}/{upd}: pass does {a}, expected {want}")
        judged(rec, body, "payload-identity", "/".join(sources))
    return run


def soft(parts):
    """Hostile values whose expressions can be evaluated in every position."""
    return True


def sequence(rec):
    """One prepared function, invoked for different objects, in turn and concurrently."""
    def build(s):
        s.cache("ResourceTemplate", "tpl", {"template": {"apiVersion": "evil.io/v1", "kind": "Evil", "metadata": {"name": "evil", "labels": {"x": "y"}}, "spec": {"a": 1, "m": {"k": 1}}}})
        s.cache("ValueFunction", "vf", {"return": {"metadata": {"labels": {"n": "=inputs.n"}}}})
        over = dict(api={"name": "=inputs.n", "namespace": "=inputs.ns", "owned": True}, update={"patch": {"delay": 7}}, create={"delay": 9, "overlay": {"spec": {"c": "=inputs.n"}}})
        return over

    forms = {
        "inline": {"resource": {"spec": {"a": 1, "m": {"k": "=inputs.n"}}}},
        "template": {"resourceTemplateRef": {"name": "tpl"}, "overlays": [{"overlay": {"spec": {"m": {"n": "=inputs.n"}}}}, {"overlayRef": {"kind": "ValueFunction", "name": "vf"}, "inputs": {"n": "=inputs.n"}}]},
        "plain": {"resourceTemplateRef": {"name": "tpl"}},
    }
    objs = [("aa", "ns1"), ("bb", "ns2"), ("aa", "ns2"), ("cc", "ns1")]
    for fname, form in forms.items():
        def seq(s, later, form=form, fname=fname):
            ip = s.ip
            over = build(s)
            fn, _ = s.prepare("ResourceFunction", "rf", rf_spec(**over, **form))
            c = Cluster(ip)
            for rnd in range(2):
                for n, ns in objs:
                    k = len(ip.events)
                    a = one_pass(s, fn, c, {"n": n, "ns": ns}, owner("ns1"))
                    judge(later, s, [e for e in ip.events[k:] if e.kind == "api"], n, ns, True, f"sequence/{fname} for {ns}/{n}")
                    later.check(a.ops == (["create"] if rnd == 0 else []), "reaches", KRM, lambda: f"sequence/{fname} {ns}/{n} round {rnd}: {a}")
            later.check(len(c.store) == len(objs), "payload-identity", KRM, lambda: f"sequence/{fname}: the cluster holds {list(c.store)!r}")
        judged(rec, seq, "payload-identity", f"sequence/{fname}")

        def par(s, later, form=form, fname=fname):
            ip = s.ip
            over = build(s)
            if ip.choose(2, "lookup"):
                over["api"]["plural"] = ...
            fn, _ = s.prepare("ResourceFunction", "rf", rf_spec(**over, **form))
            c = Cluster(ip)
            order = ip.choose(3, "latency")
            ip.loop.latency = [lambda ip, l: 0.2, lambda ip, l: 0.5 if l.startswith("get:aa") else 0.1, lambda ip, l: 0.7 if l.startswith("create:aa") else 0.3][order]
            ip.loop.reverse = bool(ip.choose(2, "reverse"))
            n0 = len(ip.events)
            ts = [s.spawn(lambda n=n, ns=ns: reconcile_rf(s, fn, c, {"n": n, "ns": ns}, owner("ns1")), f"t-{n}-{ns}") for n, ns in objs]
            res = [ip.await_(t) for t in ts]
            for (n, ns), (o, rid) in zip(objs, res):
                later.check(s.kind(o) == "Retry", "reaches", KRM, lambda: f"concurrent/{fname} {ns}/{n}: {s.out(o)}")
                rid_ = plain(ip, rid)
                later.check((rid_.get("name"), rid_.get("namespace")) == (n, ns), "address", KRM, lambda: f"concurrent/{fname}: resource id of {ns}/{n} is {rid_!r}")
            sent = []
            for e in ip.events[n0:]:
                if e.kind == "api" and e.data["op"] == "create":
                    b = wire(ip, e.data["payload"])
                    sent.append((b["metadata"].get("name"), b["metadata"].get("namespace")))
                    later.check(ip.force(e.data["namespace"]) == b["metadata"].get("namespace") and b["kind"] == "Thing" and b["apiVersion"] == "test.koreo.dev/v1", "payload-identity", KRM, lambda: f"concurrent/{fname}: sends {b!r}", event=e)
            later.check(sorted(sent) == sorted(objs), "payload-identity", KRM, lambda: f"concurrent/{fname}: created {sorted(sent)!r}, expected {sorted(objs)!r}")
        judged(rec, par, "payload-identity", f"concurrent/{fname}")


def scenarios(chk, tier):
    chk.get(RFN)
    hs = list(HOSTILE)
    for api in APIS:
        for src in SOURCES:
            pick = hs if api in ("static",) or tier == "thorough" else hs[(len(api) + len(src)) % 2::2]
            for i, b in enumerate(batches(pick, 7)):
                yield f"single/{api}/{src}/{i}", single((src,), api, b)
    pairs = list(itertools.permutations(SOURCES, 2))
    hard = ("all", "meta-string", "meta-null", "name-odd", "input-meta")
    for a, b in pairs:
        for h2 in ("all", "meta-string") if tier == "quick" else hard:
            yield f"pair/{a}+{b}/{h2}", single((a,), "inputs", ("all", "meta-null", "name-only") if tier == "quick" else hard, second=[(b, h2)])
    yield "sequence", sequence
