"""C19  A FunctionTest case passes if and only if its assertion holds for what the Function did."""
import copy
import json

from ..values import *
from ..scen import *
from ..ft import *
from ..rf import *
from .c18 import BODIES, STARTS, R1, R2, BASE, Rng

EXPLANATION = (
    "The FunctionTest runner is interpreted on test cases whose verdict is known. Return values and objects sent are given by construction (scalars of every JSON type, nested objects, lists, compare-as-set and "
    "compare-as-map lists); the expected value is then the exact one, and every one-step deviation of it or of the actual value: each leaf changed, retyped, removed, null, each key added, each list reordered, "
    "shortened, extended, each item duplicated, containers swapped. A reference comparison gives the verdict. For Functions of every kind and policy and states leading to every outcome class, all four assertion "
    "kinds with all outcome classes, delays and messages (contained, other case, not contained) are judged against what the Function was seen to return and send.")
RULES = ["return: expectReturn passes exactly for an Ok result equal to the expected value",
         "resource: expectResource passes exactly when a create or patch was attempted and what was sent is the expected object",
         "delete: expectDelete passes exactly when a delete was (not) issued as stated",
         "outcome: expectOutcome passes exactly for the same class, a contained message and an equal delay (0: any)",
         "reported: the outcome a case reports is the one the Function gives",
         "no-error: judging an assertion does not raise",
         "twins, shape, bool: the same for compare-as-map lists without unique keys, compare-as-map fields which are not lists of objects, compare-as-set lists mixing true/1 or false/0",
         "empty: an expectResource without any field does not hold when nothing was created or patched"]
SHAPES = 6
FLOOR = {"quick": 9000, "thorough": 50000}

# ---------------------------------------------------------------- reference comparison
SAME, OTHER, UNCLEAR = "same", "other", "unclear"


def canonical(v):
    if isinstance(v, dict):
        return ("d", tuple(sorted((k, canonical(x)) for k, x in v.items() if k not in DIRECTIVES)))
    if isinstance(v, list):
        return ("l", tuple(canonical(x) for x in v))
    if isinstance(v, bool):
        return ("b", v)
    if isinstance(v, (int, float)):
        return ("n", v)
    return ("v", type(v).__name__, v)


def both(verdicts):
    verdicts = list(verdicts)
    return OTHER if OTHER in verdicts else UNCLEAR if UNCLEAR in verdicts else SAME


def exactly(want, got):
    """Is `got` the expected value, nothing missing and nothing extra (compare directives are read from `want`)?"""
    if isinstance(want, dict):
        if not isinstance(got, dict):
            return OTHER
        a, b = {k for k in want if k not in DIRECTIVES}, {k for k in got if k not in DIRECTIVES}
        if a != b:
            return OTHER
        sets, maps = want.get(SET, ()), want.get(MAP, {})
        out = []
        for k in sorted(a):
            v, w = want[k], got[k]
            lists = isinstance(v, list) and isinstance(w, list)
            if k in maps and lists:
                out.append(keyed(v, w, maps[k]))
            elif k in sets and lists:
                if any(isinstance(x, (dict, list)) for x in v + w):
                    out.append(OTHER if {canonical(x) for x in v} != {canonical(x) for x in w} else UNCLEAR)
                else:
                    out.append(SAME if {canonical(x) for x in v} == {canonical(x) for x in w} else OTHER)
            else:
                out.append(exactly(v, w))
        return both(out)
    if isinstance(want, list):
        if not isinstance(got, list) or len(want) != len(got):
            return OTHER
        return both(exactly(a, b) for a, b in zip(want, got))
    return SAME if canonical(want) == canonical(got) else OTHER


def keyed(v, w, fields):
    if any(not isinstance(x, dict) for x in v + w):
        if both(exactly(a, b) for a, b in zip(v, w)) == SAME and len(v) == len(w):
            return SAME
        return OTHER if sorted(map(repr, map(canonical, v))) != sorted(map(repr, map(canonical, w))) else UNCLEAR
    ks, kw = [key_of(x, fields) for x in v], [key_of(x, fields) for x in w]
    if len(v) != len(w) or sorted(ks) != sorted(kw):
        return OTHER
    if len(set(ks)) == len(ks):
        return both(exactly(a, w[kw.index(k)]) for a, k in zip(v, ks))
    if both(exactly(a, b) for a, b in zip(v, w)) == SAME:
        return SAME
    return OTHER if sorted(map(repr, map(canonical, v))) != sorted(map(repr, map(canonical, w))) else UNCLEAR


def oddity(want, got):
    """Which kind of unusual comparison does judging this pair need? None for the ordinary ones."""
    found = set()

    def walk(want, got):
        if isinstance(want, dict) and isinstance(got, dict):
            sets, maps = want.get(SET, ()), want.get(MAP, {})
            for k in want:
                if k in DIRECTIVES or k not in got:
                    continue
                v, w = want[k], got[k]
                if k in maps:
                    if not (isinstance(v, list) and isinstance(w, list)) or any(not isinstance(x, dict) for x in v + w):
                        found.add("shape")
                        continue
                    names = [textual(v, maps[k]), textual(w, maps[k])]
                    if any(len(set(n)) < len(n) for n in names):
                        found.add("twins")
                        continue
                    for a, n in zip(v, names[0]):
                        if n in names[1]:
                            walk(a, w[names[1].index(n)])
                elif k in sets and isinstance(v, list) and isinstance(w, list):
                    kinds = {isinstance(x, bool) for x in v + w if isinstance(x, (bool, int, float)) and x in (0, 1)}
                    if len(kinds) == 2:
                        found.add("bool")
                else:
                    walk(v, w)
        elif isinstance(want, list) and isinstance(got, list):
            for a, b in zip(want, got):
                walk(a, b)
    walk(want, got)
    return next((n for n in ("shape", "twins", "bool") if n in found), None)


def textual(items, fields):
    return ["$".join(f"{x.get(f)}".strip() for f in fields) for x in items]


PLACES = {"shape": "koreo.function_test.run._validate_dict_match", "twins": "koreo.function_test.run._list_to_object", "bool": "koreo.function_test.run._validate_set_match", "empty": "koreo.function_test.run._validate_resource_match"}

# ---------------------------------------------------------------- deviations
def deviations(doc, dense=True):
    """Every one-step deviation of a JSON value (directives are left alone)."""
    out = []
    for path, node, kind in paths(doc):
        if isinstance(path[-1], str):
            out.append(edit(doc, path, remover))
        vals = [None, "", 0, False, [], {}] if dense else [None]
        if isinstance(node, str):
            vals += [node + "x", node.swapcase(), node + " ", [node], {"x": node}, node.strip() + "$"]
        elif isinstance(node, bool):
            vals += [not node, str(node), str(node).lower(), int(node), float(node), [node]]
        elif isinstance(node, (int, float)):
            vals += [node + 1, -node, str(node), float(node), node + 0.5, bool(node), [node]]
        elif node is None:
            vals += ["null", "None", "x", [None]]
        for v in vals:
            out.append(edit(doc, path, setter(v)))
        if isinstance(node, list):
            alts = [node + ["zz"], node + [9], node + [None], node + [{}], node[:-1], node[1:], node[::-1], node + node[-1:], node[:1] + node, node * 2, [node], node[1:] + node[:1], ["zz"] + node[1:], node[:-1] + [0], [node[0]] * len(node) if node else [0],
                    [bool(x) if not isinstance(x, (dict, list)) else x for x in node], [int(x) if isinstance(x, bool) else x for x in node], [str(x) if not isinstance(x, (dict, list)) else x for x in node], {str(i): x for i, x in enumerate(node)}]
            out += [edit(doc, path, setter(v)) for v in alts]
            for i in range(len(node) - 1):
                out.append(edit(doc, path, setter(node[:i] + [node[i + 1], node[i]] + node[i + 2:])))
            if node and all(isinstance(x, dict) for x in node):
                out += [edit(doc, path, setter(v)) for v in (node + [{**node[0], "v": "other"}], [{**node[0], "v": "other"}] + node, node + [dict(node[-1])], [{**x, "zz": 1} for x in node], {str(x.get("name", x.get("k"))): x for x in node}, [node[0]] + node[:-1] if len(node) > 1 else node)]
        if isinstance(node, dict):
            for k, v in (("zz", 1), ("zz", None), ("zz", {}), ("", "")):
                if k not in node:
                    out.append(edit(doc, path, setter({**node, k: v})))
            if node:
                k = next(x for x in node if x not in DIRECTIVES) if any(x not in DIRECTIVES for x in node) else None
                if k:
                    out += [edit(doc, path, setter([node])), edit(doc, path, setter({(k + "x" if a == k else a): b for a, b in node.items()}))]
    if isinstance(doc, dict):
        out += [{**doc, "zz": v} for v in (1, None, {}, [])]
    seen, uniq = set(), []
    for d in out:
        k = json.dumps(d, sort_keys=True) + repr(canonical(d))
        if k not in seen:
            seen.add(k)
            uniq.append(d)
    return uniq


VALUES = {
    "leaves": {"s": "Two words", "e": "", "i": 1, "z": 0, "neg": -7, "t": True, "f": False, "d": 2.5, "whole": 3.0, "n": None, "num": "1", "big": 9007199254740993, "u": "größe"},
    "objects": {"m": {"k": {"x": "a", "y": 1}, "e": {}, "n": None}, "em": {}, "el": [], "deep": {"a": {"b": {"c": {"d": False}}}}},
    "lists": {"l": ["a", "b", "a"], "lm": [{"n": "x", "v": 1}, {"n": "y", "v": 0}], "ll": [[1, 2], [3], [], [[0]]], "bools": [True, False, 1, 0], "mixed": ["a", 1, False, None, {"k": []}]},
    "sets": {SET: ["s", "n", "b", "e"], "s": ["a", "b", "c"], "n": [1, 2, 30], "b": [True, 5], "e": [], "plain": [1, 2]},
    "sets-deep": {"groups": [{SET: ["s"], "s": ["a", "b"], "g": 1}, {"s": ["a", "b"], "g": 2}], "inner": {"x": {SET: ["b"], "b": [True, False], "keep": ["p", "q"]}}},
    "maps": {MAP: {"ports": ["name"], "pairs": ["k", "j"], "none": ["x"]}, "ports": [{"name": "http", "v": 80, "tags": ["a", "b"]}, {"name": "dns", "v": 53, "tags": []}],
             "pairs": [{"k": "a", "j": 1, "v": "one"}, {"k": "a", "j": 2, "v": "two"}, {"k": "b", "j": 1, "v": ""}], "none": []},
    "maps-deep": {"tmpl": {MAP: {"c": ["name"]}, "c": [{"name": "m", MAP: {"env": ["name"]}, SET: ["args"], "args": ["-v", "-q"], "env": [{"name": "A", "v": "1x"}, {"name": "B", "v": "2x"}]}, {"name": "o", "v": None}]}},
    "twins": {MAP: {"l": ["name"]}, "l": [{"name": "a", "v": 1}, {"name": "a", "v": 2}, {"name": "b", "v": 1}]},
    "keys": {MAP: {"l": ["name"], "o": ["x", "y"]}, "l": [{"name": 1, "v": 1}, {"name": True, "v": 2}, {"v": 3}], "o": [{"x": "a", "y": "b"}, {"x": "a"}, {"y": "b"}]},
}
TWO_WAY = tuple(VALUES)


def verdict(v):
    return {SAME: True, OTHER: False}.get(v)


def judge(s, later, bench, items, rule, inputs=None, resource=None, what="", construct=RUN):
    """items: (case, must it pass?, description, oddity)."""
    items = [(*i, None)[:4] for i in items if i[1] is not None]
    odd = [i for i in items if i[3] == "shape"][:SHAPES]
    for chunk in [*batches([i for i in items if i[3] != "shape"], 20), *([i] for i in odd)]:
        cases = [{**c, "label": f"case {n:02} variant", "variant": True} for n, (c, _, _, _) in enumerate(chunk)]
        run = bench.run(cases, inputs, resource)
        special = len(chunk) == 1 and chunk[0][3]
        if not later.check(run.error is None and len(run.results) == len(cases), special or "no-error", PLACES.get(special, construct), lambda: f"{what}: raises {run.error} ({len(run.results)} of {len(cases)} run, {show_cases(cases)})"[:900]):
            for c, want, text, _ in chunk[:0 if special else None]:         # which one?
                one = bench.run([{**c, "label": "case variant", "variant": True}], inputs, resource)
                later.check(one.error is None, "no-error", construct, lambda: f"{what}: {text()}: raises {one.error}"[:500])
            continue
        for (c, want, text, odd_), got in zip(chunk, run.results):
            named = (odd_, PLACES[odd_]) if odd_ and not want else (rule, construct)
            later.check(got.passed is want, *named, lambda: f"{what}: {text()}: {'passes' if got.passed else 'fails'}, but the assertion {'holds' if want else 'does not hold'} ({got.message or ''} {got.differences or ''})"[:1200])


def show_cases(cases):
    return json.dumps(cases)[:200]


def short(v):
    return json.dumps(v)[:420]


# ---------------------------------------------------------------- values by construction
def returns(name, part, of, mode, which):
    doc = VALUES[name]

    def body(s, later):
        spec = {"value": ("ValueFunction", {"return": {"doc": "=inputs.doc"}}),
                "resource": ("ResourceFunction", rf_spec(api={"readonly": True}, **{"return": {"doc": "=inputs.doc"}}))}[which]
        bench = Bench(s, spec[0], spec=spec[1])
        devs = [doc] + deviations(doc)
        devs = devs[part::of]
        items = []
        for d in devs:
            want, got = (d, doc) if mode == "expected" else (doc, d)
            actual = strip(got)
            truth = verdict(exactly({"doc": want}, {"doc": actual}))
            items.append(({"inputOverrides": {"doc": actual}, "expectReturn": {"doc": want}}, truth, lambda want=want, actual=actual: f"expectReturn {short(want)} for {short(actual)}", oddity(want, actual)))
        judge(s, later, bench, items, "return", {"x": "y"}, R1 if which == "resource" else None, f"{which} function")
    return body


def objects(name, part, of, policy):
    """Objects sent by create and patch."""
    doc = {"spec": VALUES[name], "metadata": {"labels": {"app": "x"}, "annotations": {"note": "n"}}}

    def body(s, later):
        spec = rf_spec(resource=doc, **({"update": POLICIES[policy][0]} if policy == "patch" else {}))
        bench = Bench(s, "ResourceFunction", spec=spec)
        resource = None if policy == "create" else {**IDENTITY, "metadata": {**IDENTITY["metadata"], "labels": {"app": "old"}, "annotations": {}}, "spec": {"was": 1}}
        probe = bench.run([{"label": "probe", "expectDelete": True, "variant": True}], {"x": "y"}, resource)
        ops = [o for o, _ in probe.events]
        if not later.check(probe.error is None and ops == [policy], "resource", RUN, lambda: f"{policy} of {name}: {probe.error} {ops}"):
            return
        sent = tidy(without_annotation({**(resource or {}), **probe.events[0][1]})[0])
        full = full_target(doc)
        items = []
        for d in ([full] + deviations(full, dense=False))[part::of]:
            md = d.get("metadata")
            items.append(({"expectResource": d}, verdict(exactly(d, sent)), lambda d=d: f"expectResource {short(d)} when {short(sent)} is sent", oddity(d, sent)))
        judge(s, later, bench, items, "resource", {"x": "y"}, resource, f"{policy}")
    return body


# ---------------------------------------------------------------- outcomes
CLASSES = {"Skip": "skip", "DepSkip": "depSkip", "Retry": "retry", "PermFail": "permFail"}
MESSAGES = ["Waiting for The Thing", "x", "größe Wert", "a  b. (c) [d]*", "UPPER lower"]


def variations(msg):
    """(expected message, is it contained?)"""
    n = len(msg)
    cand = ["", msg, msg.upper(), msg.lower(), msg.swapcase(), msg[1:], msg[:-1], msg[n // 3: n // 2 + 1], msg + "!", "!" + msg, msg + msg, msg[::-1], "zz", " ", msg.replace(" ", ""), ".*", msg + " ", " ".join(reversed(msg.split()))]
    return [(c, c.lower() in msg.lower()) for c in dict.fromkeys(cand)]


def expectations(kind, msg, delay, exact, few=False):
    """(expectOutcome, does it hold?) for every class, message and delay."""
    out = [({"ok": {}}, kind == "Ok")]
    msgs = variations(msg) if exact else [("", True)]
    if few and len(msgs) > 6:
        msgs = msgs[:3] + msgs[4::3]
    for cls, name in CLASSES.items():
        for m, contained in msgs if kind == cls else [("", True), (msg if exact else "", True), ("zz", False)]:
            if cls == "Retry":
                for d in dict.fromkeys((0, delay or 0, (delay or 0) + 1) if few else (0, delay or 0, (delay or 0) + 1, 1, -1, 60, 30)):
                    out.append(({name: {"message": m, "delay": d}}, kind == cls and contained and d in (0, delay)))
            else:
                out.append(({name: {"message": m}}, kind == cls and contained))
    return out


def outcomes(cls, msg, delay, which, where):
    name = CLASSES[cls]
    pred = {"assert": "=false", name: {"message": msg, **({"delay": delay} if cls == "Retry" else {})}}

    def body(s, later):
        if which == "value":
            bench = Bench(s, "ValueFunction", spec={"preconditions": [pred], "return": {"a": 1}})
        else:
            bench = Bench(s, "ResourceFunction", spec=rf_spec(api={"readonly": True}, **{where: [pred], "return": {"a": 1}}))
        items = [({"expectOutcome": e}, truth, lambda e=e: f"expectOutcome {short(e)} for {cls}({msg!r}, {delay})") for e, truth in expectations(cls, msg, delay, True)]
        judge(s, later, bench, items, "outcome", {"x": "y"}, R1, f"{which} function")
        others = [({"expectReturn": {"a": 1}}, False, lambda: "expectReturn")]
        judge(s, later, bench, others, "return", {"x": "y"}, R1, f"{which} function giving {cls}")
        if which != "value":
            judge(s, later, bench, [({"expectDelete": d}, not d, lambda d=d: f"expectDelete {d}") for d in (True, False)], "delete", {"x": "y"}, R1, f"{which} function giving {cls}")
            judge(s, later, bench, [({"expectResource": R1}, False, lambda: "expectResource")], "resource", {"x": "y"}, R1, f"{which} function giving {cls}")
    return body


# ---------------------------------------------------------------- what Functions do
def behaviours(which, picks):
    def body(s, later):
        bench = Bench(s, which)
        for b, st in picks:
            inputs, resource = STARTS[st]
            case = dict(BODIES[b])
            if "overlayResource" in case and not resource:
                continue
            behaviour(s, later, bench, which, case, inputs, resource)
    return body


def behaviour(s, later, bench, which, case, inputs, resource):
    run, res, state = bench.probe(case, inputs, resource)
    what = f"{which} {json.dumps(case)[:160]} inputs={json.dumps(inputs)[:80]} resource={'yes' if resource else 'no'}"
    if not later.check(res is not None, "no-error", RUN, lambda: f"{what}: {run.error}"):
        return
    ops = [o for o, _ in run.events]
    kind, exact = res.kind, res.exact is not None
    items = lambda assertion, odd=None: ({**case, **assertion[0]}, assertion[1], lambda: short(assertion[0]) + f" when it gives {kind}({res.exact!r}, {res.delay}) and sends {ops}", odd)
    unlocated = exact and "testCases" not in res.exact
    judge(s, later, bench, [items(({"expectOutcome": e}, t)) for e, t in expectations(kind, res.exact if exact else "", res.delay, unlocated and kind != "Ok", True)], "outcome", inputs, resource, what)
    value = res.value if kind == "Ok" and isinstance(res.value, dict) else None
    rets = [({"expectReturn": {"zz": "no"}}, False), ({"expectReturn": {"n": 1}}, value == {"n": 1})]
    if value:
        rets += [({"expectReturn": d}, verdict(exactly(d, value))) for d in [value] + deviations(value, dense=False)[::5] if isinstance(d, dict) and d]
    judge(s, later, bench, [items(r) for r in rets], "return", inputs, resource, what)
    if not bench.rf:
        return
    judge(s, later, bench, [items(({"expectDelete": d}, d == ("delete" in ops))) for d in (True, False)], "delete", inputs, resource, what)
    sent = "create" in ops or "patch" in ops
    target = tidy(without_annotation(state[1])[0]) if sent else {**R1}
    alts = [({"expectResource": d}, verdict(exactly(d, target)) if sent else False) for d in [target] + (deviations(target, dense=False)[::9] if sent else []) if isinstance(d, dict) and d]
    judge(s, later, bench, [items(({"expectResource": {SET: ["x"]}}, False), "empty")], "resource", inputs, resource, what)
    alts += [({"expectResource": {**IDENTITY}}, verdict(exactly(IDENTITY, target)) if sent else False)]
    judge(s, later, bench, [items(r) for r in alts], "resource", inputs, resource, what)


def reported(which, picks):
    """The outcome of a test case is the outcome of the Function."""
    def body(s, later):
        ip = s.ip
        bench = Bench(s, which)
        for b, st in picks:
            inputs, resource = STARTS[st]
            case = dict(BODIES[b])
            if "overlayResource" in case or which == "owned":       # no owner is in a test's namespace
                continue
            run, res, state = bench.probe(case, inputs, resource)
            if res is None:
                continue
            ins, _, start = state
            if bench.rf:
                c = Cluster(ip)
                if start:
                    md = start.get("metadata", {})
                    api = bench.spec["apiConfig"]
                    if "plural" not in api or md.get("name") != "thing-1":
                        continue
                    c.put(api["plural"], md.get("namespace") if api.get("namespaced", True) else None, md["name"], start)
                out = reconcile_rf(s, bench.fn, c, ins)[0]
            else:
                base = s.cel(start or {})
                out = ip.force(s.call("koreo.value_function.reconcile.reconcile_value_function", location="loc", function=bench.fn, inputs=s.cel(ins), value_base=base))
            kind = s.out(out)[0]
            later.check(kind == res.kind, "reported", CASE, lambda: f"{which} {json.dumps(case)[:200]}: the case reports {res.kind}, the Function gives {kind}")
            if kind == "Ok":
                later.check(res.value is NotHost or same(plain(ip, out), res.value), "reported", CASE, lambda: f"{which} {json.dumps(case)[:200]}: the case reports {res.value}, the Function gives {plain(ip, out)}"[:500])
    return body


def scenarios(chk, tier):
    J = lambda body, label, rule: lambda rec: judged(rec, body, rule, label, construct=RUN)
    deep = tier != "quick"
    for name in VALUES:
        of = max(1, len(deviations(VALUES[name])) // 60)
        for mode in ("expected", "actual"):
            for part in range(of):
                yield f"return-{name}-{mode}:{part}", J(returns(name, part, of, mode, "value"), f"expectReturn {name} {mode}", "return")
                if deep or part == 0 and mode == "expected":
                    yield f"return-rf-{name}-{mode}:{part}", J(returns(name, part, of, mode, "resource"), f"expectReturn {name} {mode}", "return")
        full = full_target({"spec": VALUES[name]})
        of = max(1, len(deviations(full, dense=False)) // 60)
        if name in ("twins", "keys"):
            continue
        for policy in ("create", "patch"):
            for part in range(of):
                if deep or (part + len(name)) % 2 == (policy == "patch"):
                    yield f"resource-{name}-{policy}:{part}", J(objects(name, part, of, policy), f"expectResource {name} {policy}", "resource")
    for cls in CLASSES:
        for i, msg in enumerate(MESSAGES):
            for which, where in (("value", "preconditions"), ("resource", "preconditions"), ("resource", "postconditions")):
                if not deep and (i and which != "value"):
                    continue
                for delay in (7, 0, 61) if cls == "Retry" and (deep or i == 0) else (7,):
                    yield f"outcome-{cls}-{i}-{which}-{where}-{delay}", J(outcomes(cls, msg, delay, which, where), f"expectOutcome {cls}", "outcome")
    for w, which in enumerate(functions()):
        picks = [(b, st) for b in range(1, len(BODIES)) for st in range(len(STARTS))]
        if not deep:
            picks = [p for i, p in enumerate(picks) if (i + w) % 10 == 0]
        for i in range(len(picks)):
            yield f"behaviour-{which}:{i}", J(behaviours(which, picks[i:i + 1]), f"{which}", "outcome")
        every = [(b, st) for b in range(1, len(BODIES)) for st in range(len(STARTS))]
        for i in range(0, len(every), 12):
            if deep or (i // 12 + w) % 3 == 0:
                yield f"reported-{which}:{i}", J(reported(which, every[i:i + 12]), f"{which}", "reported")
