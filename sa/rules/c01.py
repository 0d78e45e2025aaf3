"""C01  Steps run only on Ok dependencies and see exactly their values."""
import itertools

from ..values import *
from ..scen import *
from ..wf import *

EXPLANATION = (
    "Path analysis of prepare_workflow + reconcile_workflow: for every small dependency shape, every combination of step outcome classes, every "
    "expression position a reference can sit in (inputs, skipIf, forEach.itemIn, switchOn; dotted or indexed), every kind of Logic and several "
    "completion orders, the interpreter records which Functions' expressions are evaluated and which API operations are performed.  A step's Logic "
    "may appear on a path only after all its dependencies finished Ok; the data it receives must be the dependencies' own values (tracked as opaque "
    "atoms from the trigger); skipIf and refSwitch select what is evaluated.")
RULES = ["gate: no expression of a step's Logic is evaluated and no API operation is made for it when a dependency did not end Ok; the step is reported DepSkip",
         "runs: when all dependencies are Ok the Logic is evaluated exactly once and the step is reported with the Logic's outcome",
         "order: every evaluation of a step's Logic comes after the last evaluation/API operation of each dependency",
         "values: the inputs of the Logic are exactly the referenced steps' values (identity of opaque atoms)",
         "skip: skipIf true => Skip and no Logic; false => runs; not a boolean or failing => no Logic and not Ok",
         "switch: exactly the selected case's Logic is evaluated",
         "stateless: a second pass over the same prepared Workflow is decided by its own outcomes"]
FLOOR = {"quick": 4000, "thorough": 9000}

SOURCES = CLASSES + ("skipIf",)
PLACES = ("inputs", "inputs[]", "nested", "macro", "skipIf", "itemIn", "itemIn+", "switchOn", "forEach-inputs")
LOGICS = ("vf", "rf", "wf", "switch")


def dependent(place, logic, dep="aaa", label="bbb"):
    """A step that refers to step `dep` in one place."""
    st = {"label": label, "condition": {"type": label, "name": label}, "inputs": {"o": f"=parent.o.{label}"}}
    if logic == "switch" or place == "switchOn":
        st["refSwitch"] = {"switchOn": f"=steps.{dep}.sw" if place == "switchOn" else "=parent.sw",
                           "cases": [{"case": "one", "kind": "ValueFunction", "name": f"vf-{label}"}, {"case": "two", "kind": "ValueFunction", "name": f"vf-{label}-alt"}]}
    else:
        st["ref"] = {"vf": {"kind": "ValueFunction", "name": f"vf-{label}"}, "rf": {"kind": "ResourceFunction", "name": f"rf-{label}"},
                     "wf": {"kind": "Workflow", "name": f"wf-{label}"}}[logic]
    if place == "inputs":
        st["inputs"]["got"] = f"=steps.{dep}.v"
    elif place == "inputs[]":
        st["inputs"]["got"] = f"=steps['{dep}'].v"
    elif place == "nested":
        st["inputs"]["got"] = {"deep": [{"er": f"=steps.{dep}.v"}]}
    elif place == "macro":
        st["inputs"]["got"] = f"=[1].map(x, steps.{dep}.v)"
    elif place == "skipIf":
        st["skipIf"] = f"=steps.{dep}.no"
    elif place == "itemIn":
        st["forEach"] = {"itemIn": f"=steps.{dep}.items", "inputKey": "it"}
    elif place == "itemIn+":
        st["forEach"] = {"itemIn": f"=[steps.{dep}.v] + []", "inputKey": "it"}
    elif place == "forEach-inputs":
        st["forEach"] = {"itemIn": "=[1]", "inputKey": "it"}
        st["inputs"]["got"] = f"=steps.{dep}.v"
    return st


def pair_scenario(place, logic, source_logic, sources=SOURCES):
    def scen(s):
        ip = s.ip
        o = sources[ip.choose(len(sources), "aaa")]
        ip.loop.latency = LATENCIES[("slow-first", "slow-last")[ip.choose(2, "latency")]]
        ip.loop.reverse = bool(ip.choose(2, "ready-order"))
        put_functions(s, "aaa", (source_logic,) if source_logic in ("vf", "rf", "switch") else ("vf",))
        put_functions(s, "bbb", ("switch",) if place == "switchOn" else (logic,))
        src = {"label": "aaa", "condition": {"type": "aaa", "name": "aaa"}, "inputs": {"o": "=parent.o.aaa", "v": "=parent.v"}}
        dep = dependent(place, logic)
        if source_logic == "switch":
            src["refSwitch"] = {"switchOn": "='two'", "cases": [{"case": "one", "kind": "ValueFunction", "name": "vf-aaa-alt"}, {"case": "two", "kind": "ValueFunction", "name": "vf-aaa"}]}
        else:
            src["ref"] = {"kind": "ResourceFunction", "name": "rf-aaa"} if source_logic == "rf" else {"kind": "Workflow", "name": f"{source_logic}-aaa"} if source_logic in ("wf", "wf2") else {"kind": "ValueFunction", "name": "vf-aaa"}
        if source_logic in ("wf", "wf2"):
            inner = [{"label": "aaa_in", "ref": {"kind": "ValueFunction", "name": "vf-aaa"}, "inputs": {"o": "=parent.o", "v": "=parent.v"}, "state": {k: f"=value.{k}" for k in ("v", "no", "sw", "items")}}]
            if source_logic == "wf2":
                # A sibling which is Ok: the nested Workflow is Ok unless the other step waits or failed.
                inner.insert(0, {**inner[0], "label": "aaa_ok", "inputs": {"o": "Ok", "v": "=parent.v"}})
            s.cache("Workflow", f"{source_logic}-aaa", {"steps": inner})
        if source_logic == "each":
            src["forEach"] = {"itemIn": "=[1]", "inputKey": "item"}
            dep = json.loads(json.dumps(dep).replace("steps.aaa", "steps.aaa[0]").replace("steps['aaa']", "steps['aaa'][0]"))
        if o == "skipIf":
            src["skipIf"] = "=parent.yes"
        wf, _ = s.prepare("Workflow", "wf", {"steps": [src, dep]})
        c = Cluster(ip)
        if source_logic == "rf":
            c.put("things", "ns1", "obj-aaa", thing("obj-aaa"))
        if logic == "rf":
            c.put("things", "ns1", "obj-bbb", thing("obj-bbb"))
        v = Sym("trigger-v", STR)
        trig = {"o": {"aaa": o if o in CLASSES else "Ok", "bbb": "Ok"}, "v": v, "yes": True, "sw": "one"}
        trig = s.cel(trig)
        v = s.ip.getitem(trig, "v")
        r = run_workflow(s, wf, c, trig)
        return o, r, v

    def run(rec):
        for p in rec.explore(scenario(rec.chk, scen)):
            if p.error:
                rec.undecide(f"{p.error[0]} {getattr(p.error[1], 'value', p.error[1])!r}")
                continue
            s, (o, r, v) = p.outcome
            reasons = condition_classes(s, r)
            d = f"step bbb ({logic}) refers to step aaa in {place}; aaa ends {o}"
            ev = logic_events(p.events, "bbb")
            if o == "skipIf":
                rec.check(not logic_events(p.events, "aaa"), "skip", REC, lambda: f"step aaa has a true skipIf but its Logic is evaluated", p, event=first(logic_events(p.events, "aaa")))
                rec.check(reasons.get("aaa") == "Skip", "skip", REC, lambda: f"step aaa has a true skipIf but is reported {reasons.get('aaa')}", p)
            elif source_logic in ("switch", "wf", "wf2", "each"):
                if source_logic == "wf2" and o in ("Skip", "DepSkip"):
                    o = "Ok"
                rec.check(reasons.get("aaa") == o, "runs", REC, lambda: f"step aaa ({source_logic}) should end {o} but is reported {reasons.get('aaa')}", p)
            if o != "Ok":
                rec.check(not ev, "gate", REC, lambda: f"{d}, but bbb's Logic is evaluated", p, event=first(ev))
                rec.check(reasons.get("bbb") == "DepSkip", "gate", REC, lambda: f"{d}, but bbb is reported {reasons.get('bbb')} instead of DepSkip", p)
                continue
            rec.check(bool(ev), "runs", REC, lambda: f"{d}, but bbb's Logic is not evaluated", p)
            rec.check(reasons.get("bbb") == "Ok", "runs", REC, lambda: f"{d}, but bbb is reported {reasons.get('bbb')}", p)
            n = body_count(p.events, "bbb")
            want = 1
            rec.check(n == want, "runs", REC, lambda: f"{d}: bbb's Logic is evaluated {n} times", p)
            la = last_index(p.events, logic_events(p.events, "aaa"))
            fb = first_index(p.events, ev)
            rec.check(fb is None or la is None or la < fb, "order", REC, lambda: f"{d}: bbb's Logic is evaluated before aaa has finished", p, event=first(ev))
            alt = [e for e in logic_events(p.events, "bbb-alt")]
            rec.check(not alt, "switch", REC, lambda: f"{d}: the unselected case's Logic is evaluated", p, event=first(alt))
            if place in ("inputs", "inputs[]", "nested", "macro", "forEach-inputs") and logic in ("vf", "switch"):
                got = received(s, p.events, "bbb", "got")
                if place == "nested":
                    got = s.ip.getitem(s.ip.getitem(s.ip.getitem(got, "deep"), 0), "er") if got is not None else None
                elif place == "macro":
                    got = s.ip.getitem(got, 0) if got is not None else None
                rec.check(is_atom(s, got, v), "values", REC, lambda: f"{d}: input got is {s.ip.force(got)!r}, expected aaa's own value", p)
            if place == "itemIn":
                it = received(s, p.events, "bbb", "it") if logic in ("vf", "switch") else v
                rec.check(is_atom(s, it, v), "values", REC, lambda: f"{d}: item is {it!r}, expected aaa's own item", p)
    return run


def is_atom(s, x, v):
    x = s.ip.force(x)
    return isinstance(x, Sym) and isinstance(v, Sym) and x.core is v.core


# ------------------------------------------------------------------ whole graphs
def dag_scenario(edges, n, classes, latency, how, passes=1):
    labels = ("aaa", "bbb", "ccc", "ddd")[:n]

    def scen(s):
        ip = s.ip
        ip.set_order = (1, -1)[ip.choose(2, "set-order")] if len(edges) == n - 1 and passes == 1 else 1
        kinds = [[classes[ip.choose(len(classes), f"{l}{k}")] for l in labels] for k in range(passes)]
        ip.loop.latency = LATENCIES[latency]
        steps = []
        for i, l in enumerate(labels):
            put_functions(s, l, ("vf",))
            deps = [labels[j] for j in range(i) if (j, i) in edges]
            st = {"label": l, "condition": {"type": l, "name": l}, "ref": {"kind": "ValueFunction", "name": f"vf-{l}"},
                  "inputs": {"o": f"=parent.o.{l}", "v": f"=parent.v.{l}"}}
            if deps and how == "inputs":
                st["inputs"]["got"] = {d: f"=steps.{d}.v" for d in deps}
            elif deps and how == "mixed":
                st["inputs"]["got"] = {deps[0]: f"=steps['{deps[0]}'].v"}
                if len(deps) > 1:
                    st["skipIf"] = f"=steps.{deps[1]}.no"
                if len(deps) > 2:
                    st["forEach"] = {"itemIn": f"=[steps.{deps[2]}.v]", "inputKey": "it"}
            steps.append(st)
        wf, _ = s.prepare("Workflow", "wf", {"steps": steps})
        c = Cluster(ip)
        outs, marks = [], [0]
        for k in range(passes):
            trig = s.cel({"o": dict(zip(labels, kinds[k])), "v": {l: Sym(f"v-{l}", STR) for l in labels}})
            atoms = {l: ip.getitem(ip.getitem(trig, "v"), l) for l in labels}
            marks[-1] = len(ip.events)
            r = run_workflow(s, wf, c, trig)
            outs.append((r, atoms))
            marks.append(len(ip.events))
        return kinds, outs, marks

    def run(rec):
        for p in rec.explore(scenario(rec.chk, scen)):
            if p.error:
                rec.undecide(f"{p.error[0]} {getattr(p.error[1], 'value', p.error[1])!r}")
                continue
            s, (kinds, outs, marks) = p.outcome
            for k, (r, atoms) in enumerate(outs):
                evs = p.events[marks[k]:marks[k + 1]]
                want = {}
                for i, l in enumerate(labels):
                    deps = [labels[j] for j in range(i) if (j, i) in edges]
                    ok = all(want[d] == "Ok" for d in deps)
                    each = how == "mixed" and len(deps) > 2
                    want[l] = "DepSkip" if not ok else "Ok" if each and kinds[k][i] in ("Skip", "DepSkip") else kinds[k][i]
                    run_ = ok
                    ev = logic_events(evs, l)
                    d = f"pass {k + 1}: step {l} depends on {deps} which end {[want[x] for x in deps]}"
                    rule = "stateless" if k else "gate" if not ok else "runs"
                    if rec.check(bool(ev) == run_, rule, REC, lambda: f"{d}: its Logic is {'evaluated' if ev else 'not evaluated'}", p, event=first(ev)) and run_:
                        for dd in deps:
                            la, fb = last_index(evs, logic_events(evs, dd)), first_index(evs, ev)
                            rec.check(la is None or la < fb, "order", REC, lambda: f"{d}: its Logic is evaluated before {dd} has finished", p, event=first(ev))
                        if kinds[k][i] == "Ok":
                            got = received(s, evs, l, "got")
                            if deps:
                                names = deps if how == "inputs" else deps[:1]
                                have = {s.ip.force(a): s.ip.force(b) for a, b in s.ip.dict_items(s.ip.force(got))} if isinstance(s.ip.force(got), ADict) else {}
                                rec.check(set(have) == set(names) and all(is_atom(s, have[x], atoms[x]) for x in names), "values", REC,
                                          lambda: f"{d}: receives {have!r}, expected the values of {names}", p)
                            else:
                                rec.check(got is None, "values", REC, lambda: f"{d}: receives {got!r}", p)
                reasons = condition_classes(s, r)
                for l in labels:
                    rec.check(reasons.get(l) == want[l], "stateless" if k else "gate" if want[l] == "DepSkip" else "runs", REC,
                              lambda: f"pass {k + 1}: outcomes {dict(zip(labels, kinds[k]))}, edges {sorted(edges)}: step {l} is reported {reasons.get(l)}, expected {want[l]}", p)
    return run


# ------------------------------------------------------------------ Ok values that look empty
def falsy_scenario(rec):
    """Every kind of empty Ok value still lets the dependents run."""
    kinds = ("no-return", "empty-return", "forEach-empty", "wf-no-state", "rf-no-return", "forEach-skips", "wf-state", "vf-false")

    def scen(s):
        ip = s.ip
        k = kinds[ip.choose(len(kinds), "value")]
        put_functions(s, "bbb")
        s.cache("ValueFunction", "none", {"preconditions": [{"assert": "=inputs.o == 'Ok'", "skip": {"message": "m"}}]})
        s.cache("ValueFunction", "empty", {"return": {"e": {}}, "locals": {"a": 1}})
        s.cache("ResourceFunction", "rf", rf_spec(api={"readonly": True}))
        s.cache("Workflow", "sub", {"steps": [{"label": "sss", "ref": {"kind": "ValueFunction", "name": "none"}, "inputs": {"o": "Ok"}}]})
        s.cache("Workflow", "sub-state", {"steps": [{"label": "sss", "ref": {"kind": "ValueFunction", "name": "empty"}, "state": {"f": False, "e": "=value.e"}}]})
        s.cache("ValueFunction", "false", {"return": {"f": False, "z": 0, "s": "", "n": None}})
        a = {"label": "aaa", "condition": {"type": "aaa", "name": "aaa"}, "inputs": {"o": "Ok"}}
        ref = {"no-return": ("ValueFunction", "none"), "empty-return": ("ValueFunction", "empty"), "forEach-empty": ("ValueFunction", "empty"),
               "wf-no-state": ("Workflow", "sub"), "rf-no-return": ("ResourceFunction", "rf"), "forEach-skips": ("ValueFunction", "none"), "wf-state": ("Workflow", "sub-state"),
               "vf-false": ("ValueFunction", "false")}[k]
        a["ref"] = {"kind": ref[0], "name": ref[1]}
        if k == "forEach-empty":
            a["forEach"] = {"itemIn": "=[]", "inputKey": "it"}
        if k == "forEach-skips":
            a["forEach"] = {"itemIn": "=['Skip', 'Ok']", "inputKey": "o"}
        b = {"label": "bbb", "condition": {"type": "bbb", "name": "bbb"}, "ref": {"kind": "ValueFunction", "name": "vf-bbb"}, "inputs": {"o": "Ok", "got": "=steps.aaa", "v": 1}}
        wf, _ = s.prepare("Workflow", "wf", {"steps": [a, b]})
        c = Cluster(ip)
        c.put("things", "ns1", "thing-1", thing("thing-1"))
        return k, run_workflow(s, wf, c, {})
    for p in rec.explore(scenario(rec.chk, scen)):
        if p.error:
            rec.undecide(f"{p.error[0]} {getattr(p.error[1], 'value', p.error[1])!r}")
            continue
        s, (k, r) = p.outcome
        cl = condition_classes(s, r)
        rec.check(cl.get("aaa") == "Ok", "runs", REC, lambda: f"step aaa ({k}) is reported {cl.get('aaa')}, expected Ok", p)
        ev = logic_events(p.events, "bbb")
        rec.check(bool(ev) and cl.get("bbb") == "Ok", "runs", REC, lambda: f"step aaa is Ok with value {k}, but its dependent is {cl.get('bbb')} (evaluated: {bool(ev)})", p)
        got = received(s, p.events, "bbb", "got", MISSING)
        want = {"no-return": None, "empty-return": {"e": {}}, "forEach-empty": [], "wf-no-state": {}, "rf-no-return": None, "wf-state": {"f": False, "e": {}},
                "vf-false": {"f": False, "z": 0, "s": "", "n": None}}
        if ev and got is not MISSING and k in want:
            try:
                g = plain(s.ip, got)
            except NotHost:
                continue
            rec.check(same(g, want[k]), "values", REC, lambda: f"value of step aaa ({k}) arrives as {g!r}, expected {want[k]!r}", p)


# ------------------------------------------------------------------ skipIf
def skip_scenario(dep, each, logic):
    def scen(s):
        ip = s.ip
        how = ("true", "false", "nonbool", "error", "null", "int")[ip.choose(6, "skipIf")]
        put_functions(s, "aaa", ("vf",))
        put_functions(s, "bbb", (logic,))
        src = "steps.aaa" if dep else "parent"
        b = dependent("none", logic)
        b["skipIf"] = {"true": f"={src}.yes", "false": f"=!{src}.yes", "nonbool": f"={src}.text", "error": f"={src}.absent", "null": "=null", "int": "=1"}[how]
        if each:
            b["forEach"] = {"itemIn": "=[1, 2]", "inputKey": "it"}
        steps = [b]
        if dep:
            steps.insert(0, {"label": "aaa", "ref": {"kind": "ValueFunction", "name": "vf-aaa"}, "inputs": {"o": "Ok", "v": "1"}})
        wf, _ = s.prepare("Workflow", "wf", {"steps": steps})
        c = Cluster(ip)
        c.put("things", "ns1", "obj-bbb", thing("obj-bbb"))
        return how, run_workflow(s, wf, c, {"o": {"bbb": "Ok"}, "yes": True, "text": "yes", "sw": "two"})

    def run(rec):
        for p in rec.explore(scenario(rec.chk, scen)):
            if p.error:
                rec.undecide(f"{p.error[0]} {getattr(p.error[1], 'value', p.error[1])!r}")
                continue
            s, (how, r) = p.outcome
            cl = condition_classes(s, r).get("bbb")
            ev = logic_events(p.events, "bbb") + logic_events(p.events, "bbb-alt")
            calls = api_calls(p.events)
            d = f"skipIf is {how} ({'with' if dep else 'without'} dependencies, forEach={each}, {logic})"
            if how == "true":
                rec.check(cl == "Skip", "skip", REC, lambda: f"{d}: step is reported {cl}, expected Skip", p)
            elif how == "false":
                rec.check(bool(ev) and cl == "Ok", "skip", REC, lambda: f"{d}: step is reported {cl}, Logic evaluated: {bool(ev)}", p)
            else:
                rec.check(cl in ("PermFail", "Retry"), "skip", REC, lambda: f"{d}: step is reported {cl}", p)
            if how != "false":
                rec.check(not ev and not calls, "skip", REC, lambda: f"{d}: Logic is evaluated", p, event=first(ev + calls))
    return run


# ------------------------------------------------------------------ refSwitch
CASES = (("one", "ONE"), ("two", "1"), ("one", "one-"), ("", "x"), ("null", "default"))


def switch_scenario(each, kind, source="inputs"):
    def scen(s):
        ip = s.ip
        pair = CASES[ip.choose(len(CASES), "cases")]
        dflt = (None, 0, 1, 2)[ip.choose(4, "default")]
        values = ["one", "two", "1", 1, 2, "none", "", 0, True, 1.5, "default"]
        if kind != "vf":
            values = ["one", 7, "1", 1, "none", ""]
        val = values[ip.choose(len(values), "value")]
        names = ["c0", "c1", "c2"]
        for n in names:
            put_functions(s, n, (kind,))
        cases = [{"case": pair[0]}, {"case": pair[1]}, {"case": "third"}]
        for i, n in enumerate(names):
            cases[i].update({"kind": "ValueFunction", "name": f"vf-{n}"} if kind == "vf" else {"kind": "ResourceFunction", "name": f"rf-{n}"} if kind == "rf" else {"kind": "Workflow", "name": f"wf-{n}"})
            if dflt == i:
                cases[i]["default"] = True
        st = {"label": "sss", "condition": {"type": "sss", "name": "sss"}, "inputs": {"o": "Ok", "v": "=parent.val"},
              "refSwitch": {"switchOn": f"={'inputs.it' if each else 'inputs.v' if source == 'inputs' else 'parent.val'}", "cases": cases}}
        if each:
            st["forEach"] = {"itemIn": "=['third', parent.val]", "inputKey": "it"}
        r = s.prepare_raw("Workflow", "wf", {"steps": [st]})
        if s.kind(r) != "value":
            return None
        c = Cluster(ip)
        for n in names:
            c.put("things", "ns1", f"obj-{n}", thing(f"obj-{n}"))
        return pair, dflt, val, run_workflow(s, r[0], c, {"val": val}), s.kind(s.attr(r[0], "steps_ready"))

    def run(rec):
        for p in rec.explore(scenario(rec.chk, scen)):
            if p.error:
                rec.undecide(f"{p.error[0]} {getattr(p.error[1], 'value', p.error[1])!r}")
                continue
            s, got = p.outcome
            if got is None:
                continue
            pair, dflt, val, r, ready = got
            if ready not in ("Ok", "value"):
                continue

            def select(v):
                if isinstance(v, bool) or isinstance(v, float):
                    return None
                for i, c in enumerate((pair[0], pair[1], "third")):
                    if type(c) is type(v) and c == v:
                        return i
                return dflt
            items = (["third", val] if each else [val])
            want = [select(v) for v in items]
            d = f"switch value(s) {items!r}, cases {list(pair) + ['third']!r}, default {dflt}"
            for i in range(3):
                n = body_count(p.events, f"c{i}")
                w = want.count(i)
                rec.check(n == w, "switch", SWITCH, lambda: f"{d}: case {i} is evaluated {n} times, expected {w}", p, event=first(logic_events(p.events, f"c{i}")))
            cl = condition_classes(s, r).get("sss")
            if None in want:
                rec.check(cl in ("PermFail", "Retry"), "switch", SWITCH, lambda: f"{d}: no case matches but the step is reported {cl}", p)
            else:
                rec.check(cl == "Ok", "switch", SWITCH, lambda: f"{d}: step is reported {cl}", p)
    return run


def not_ready_scenario(rec):
    """A Workflow whose preparation is not ready evaluates nothing."""
    def scen(s):
        ip = s.ip
        k = ("missing", "later", "unknown", "own", "parse")[ip.choose(5, "problem")]
        put_functions(s, "aaa")
        put_functions(s, "bbb")
        a = {"label": "aaa", "ref": {"kind": "ResourceFunction", "name": "rf-aaa"}, "inputs": {"o": "Ok"}}
        b = {"label": "bbb", "ref": {"kind": "ValueFunction", "name": "vf-bbb"}, "inputs": {"o": "Ok"}}
        if k == "missing":
            b["ref"]["name"] = "absent"
        elif k == "later":
            a["inputs"]["x"] = "=steps.bbb.v"
        elif k == "unknown":
            b["inputs"]["x"] = "=steps.zzz.v"
        elif k == "own":
            b["inputs"]["x"] = "=steps.bbb.v"
        else:
            b["inputs"]["x"] = "=1 +"
        r = s.prepare_raw("Workflow", "wf", {"steps": [a, b]})
        if s.kind(r) != "value":
            return k, None
        return k, run_workflow(s, r[0], Cluster(ip), {})
    for p in rec.explore(scenario(rec.chk, scen)):
        if p.error:
            rec.undecide(f"{p.error[0]} {getattr(p.error[1], 'value', p.error[1])!r}")
            continue
        s, (k, r) = p.outcome
        if r is None:
            continue
        ev = logic_events(p.events, "aaa") + logic_events(p.events, "bbb") + api_calls(p.events)
        rec.check(not ev, "gate", "koreo.workflow.reconcile.reconcile_workflow", lambda: f"workflow with a step problem ({k}) evaluates Logic", p, event=first(ev))
        o = s.kind(s.attr(r, "result"))
        rec.check(o in ("PermFail", "Retry"), "gate", "koreo.workflow.reconcile.reconcile_workflow", lambda: f"workflow with a step problem ({k}) ends {o}", p)


def scenarios(chk, tier):
    chk.get("koreo.workflow.reconcile.reconcile_workflow")
    thorough = tier == "thorough"
    for place in PLACES:
        for logic in LOGICS:
            if place == "switchOn" and logic != "switch":
                continue
            for sl in ("vf", "rf"):
                if sl == "rf" and not thorough and logic in ("wf",):
                    continue
                yield f"pair/{place}/{logic}/{sl}", pair_scenario(place, logic, sl)
    for place in PLACES if thorough else ("inputs[]", "skipIf", "itemIn"):
        for logic in LOGICS if thorough else ("vf", "rf") if place == "inputs[]" else ("vf",):
            for sl in ("wf", "wf2", "switch", "each"):
                if place != "switchOn" or logic == "switch":
                    yield f"pair/{place}/{logic}/{sl}", pair_scenario(place, logic, sl, ("Ok", "Retry", "PermFail", "skipIf") if sl == "each" else SOURCES)
    pairs3 = [(0, 1), (0, 2), (1, 2)]
    for k in range(len(pairs3) + 1):
        for edges in itertools.combinations(pairs3, k):
            for how in ("inputs", "mixed"):
                if how == "mixed" and len(edges) < 2:
                    continue
                yield f"dag3/{edges}/{how}", dag_scenario(set(edges), 3, CLASSES if thorough else ("Ok", "Skip", "DepSkip", "Retry", "PermFail"), "zero", how)
    for edges in ([(0, 1)], [(0, 1), (1, 2)], [(0, 2), (1, 2)], [(0, 1), (0, 2)]):
        yield f"passes/{tuple(edges)}", dag_scenario(set(edges), 3, ("Ok", "Retry"), "slow-first", "inputs", passes=2)
    if thorough:
        pairs4 = [(i, j) for j in range(4) for i in range(j)]
        for k in range(2, len(pairs4) + 1):
            for edges in itertools.combinations(pairs4, k):
                for how in ("inputs", "mixed"):
                    yield f"dag4/{edges}/{how}", dag_scenario(set(edges), 4, ("Ok", "Skip", "Retry"), "slow-first", how)
    else:
        for edges in ([(0, 3), (1, 3), (2, 3)], [(0, 1), (1, 2), (2, 3)], [(0, 1), (0, 2), (1, 3), (2, 3)]):
            for how in ("inputs", "mixed"):
                yield f"dag4/{tuple(edges)}/{how}", dag_scenario(set(edges), 4, ("Ok", "Skip", "Retry"), "slow-first", how)
    yield "falsy", falsy_scenario
    for dep in (False, True):
        for each in (False, True):
            for logic in LOGICS:
                yield f"skip/dep={dep}/each={each}/{logic}", skip_scenario(dep, each, logic)
    for each in (False, True):
        for kind in ("vf", "rf", "wf"):
            yield f"switch/each={each}/{kind}", switch_scenario(each, kind)
    yield "switch/parent", switch_scenario(False, "vf", "parent")
    yield "not-ready", not_ready_scenario
