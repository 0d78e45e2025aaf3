"""C07  Management modes bound the API calls a ResourceFunction may make."""
from ..values import *
from ..scen import *

EXPLANATION = (
    "Effect analysis of prepare_resource_function + reconcile_resource_function: for every combination of readonly, create, update policy, "
    "deleteIfExists, ownership, template form and live-object state (including load, create, patch and delete failures) every path is "
    "interpreted and the set of API operations it performs is compared with the set its mode permits; for every precondition kind "
    "that does not pass, no API operation may be reachable at all.")
RULES = ["mode-effects: the mutating operations on a path are within {readonly: none, create off: no create, never: no patch/delete, patch: no delete, recreate: no patch, deleteIfExists: delete only}",
         "absent-waits: absent object and readonly or create off => no mutation and Retry",
         "gate: a precondition that does not pass => no API operation of any kind",
         "gate-opens: preconditions that pass do not keep the object from being read (anti-vacuity)"]
FLOOR = {"quick": 1500, "thorough": 5000}

UPDATES = (None, {"patch": {"delay": 7}}, {"recreate": {"delay": 8}}, {"never": {}})
CREATES = (None, {"enabled": True, "delay": 9}, {"enabled": False}, {"enabled": True, "delay": 9, "overlay": {"spec": {"c": "=inputs.c"}}})
LIVE = ("absent", "notfound", "http404", "match", "differs", "unowned", "get500", "getfail", "two")
FORMS = ("inline", "template", "overlays")


def live_object(state, owned):
    o = {"apiVersion": "test.koreo.dev/v1", "kind": "Thing", "metadata": {"name": "thing-1", "namespace": "ns1", "uid": "u"},
         "spec": {"a": 1, "b": "two", "extra": 3}}
    if owned and state != "unowned":
        o["metadata"]["ownerReferences"] = [dict(OWNER)]
    if state == "differs":
        o["spec"]["a"] = 2
    return o


def get_hook(state, owned):
    def hook(ip, kind, names, ns):
        if state == "notfound":
            ip.throw(KR8S_NOT_FOUND, "nope")
        if state == "http404":
            ip.throw(server_error(ip, 404))
        if state == "get500":
            ip.throw(server_error(ip, 500))
        if state == "getfail":
            ip.throw(KR8S_CONN_CLOSED, "closed")
        if state == "two":
            return [AInst(kind, {"_raw": to_abs(live_object("match", owned)), "_api": None, "__addr": names[0]}) for _ in range(2)]
        return NotImplemented
    return hook


def mode_scenario(readonly, delete_if, form, live_states):
    def scen(s):
        ip = s.ip
        upd = ip.choose(4, "update")
        crt = ip.choose(4, "create")
        owned = bool(ip.choose(2, "owned"))
        state = live_states[ip.choose(len(live_states), "live")]
        fault = (None, "422", "409", "conn")[ip.choose(4, "fault")] if state in ("absent", "differs", "unowned", "match") else None
        api = {"readonly": readonly, "owned": owned}
        if delete_if:
            api["deleteIfExists"] = True
        over = {"api": api}
        if UPDATES[upd] is not None:
            over["update"] = UPDATES[upd]
        if CREATES[crt] is not None:
            over["create"] = CREATES[crt]
        if form == "template":
            s.cache("ResourceTemplate", "tpl", {"template": {"apiVersion": "test.koreo.dev/v1", "kind": "Thing", "spec": {"a": 1, "b": "two"}}})
            over["resourceTemplateRef"] = {"name": "=inputs.t"}
        elif form == "overlays":
            s.cache("ValueFunction", "vf", {"return": {"spec": {"b": "two"}}})
            over["resource"] = {"spec": {"a": 0}}
            over["overlays"] = [{"overlay": {"spec": {"a": 1}}}, {"overlayRef": {"kind": "ValueFunction", "name": "vf"}}]
        fn, _ = s.prepare("ResourceFunction", "rf", rf_spec(**over))

        def on_fault(ip, op, info):
            if fault and op in ("create", "patch", "delete"):
                if fault == "conn":
                    ip.throw(KR8S_CONN_CLOSED, "closed")
                ip.throw(server_error(ip, int(fault)))
        c = Cluster(ip, fault=on_fault, get=get_hook(state, owned))
        if state in ("match", "differs", "unowned"):
            c.put("things", "ns1", "thing-1", live_object(state, owned))
        outs = []
        marks = []
        for _ in range(2):
            marks.append(len(ip.events))
            absent = not c.store
            try:
                o = reconcile_rf(s, fn, c, {"c": 5, "t": "tpl"})[0]
                outs.append((absent, s.kind(o)))
            except AExc:
                outs.append((absent, "raise"))
        marks.append(len(ip.events))
        return dict(update=("patch", "patch", "recreate", "never")[upd], create=crt != 2, owned=owned, state=state, fault=fault, outs=outs, marks=marks)

    def run(rec):
        c = "koreo.resource_function.reconcile.reconcile_krm_resource"
        for p in rec.explore(scenario(rec.chk, scen)):
            if p.error:
                rec.undecide(f"{p.error[0]} {getattr(p.error[1], 'value', p.error[1])!r}")
                continue
            s, d = p.outcome
            mode = f"readonly={readonly} create={d['create']} update={d['update']} deleteIfExists={delete_if} live={d['state']} fault={d['fault']}"
            allowed = {"create", "patch", "delete"}
            if delete_if:
                allowed = {"delete"}
            else:
                if readonly:
                    allowed = set()
                if not d["create"]:
                    allowed.discard("create")
                if d["update"] == "never":
                    allowed -= {"patch", "delete"}
                elif d["update"] == "patch":
                    allowed.discard("delete")
                else:
                    allowed.discard("patch")
            for e in mutations(p.events):
                rec.site("mutation", where_of(e))
            bad = [e for e in mutations(p.events) if e.data["op"] not in allowed]
            rec.check(not bad, "mode-effects", f"{c}:{bad[0].data['op'] if bad else ''}", lambda: f"{mode}: performs {[e.data['op'] for e in bad]}, allowed {sorted(allowed)}", p, event=bad[0] if bad else None)
            if not delete_if and d["state"] in ("absent", "notfound", "http404") and (readonly or not d["create"]):
                for i, (absent, k) in enumerate(d["outs"]):
                    rec.check(k == "Retry", "absent-waits", c, lambda: f"{mode}: absent object gives {k}, expected Retry", p)
                muts = mutations(p.events)
                rec.check(not muts, "absent-waits", c, lambda: f"{mode}: absent object but performs {[e.data['op'] for e in muts]}", p, event=muts[0] if muts else None)
    return run


def where_of(e):
    from ..report import where
    return where(e.stack)[0]


PRE = {
    "skip": {"skip": {"message": "m"}}, "depSkip": {"depSkip": {"message": "m"}}, "retry": {"retry": {"message": "m", "delay": 4}},
    "permFail": {"permFail": {"message": "m"}},
}


def gate_scenario(plural, mode):
    def scen(s):
        ip = s.ip
        kinds = list(PRE)
        k = kinds[ip.choose(4, "kind")]
        how = ("false", "error", "nonbool", "message-error", "second", "pass")[ip.choose(6, "assert")]
        state = ("absent", "differs", "match")[ip.choose(3, "live")]
        val = {"false": "=inputs.no", "error": "=inputs.missing", "nonbool": "=inputs.str", "message-error": "=inputs.no", "second": "=inputs.no", "pass": "=!inputs.no"}[how]
        pre = {"assert": val, **{a: dict(b) for a, b in PRE[k].items()}}
        if how == "message-error":
            pre[k]["message"] = "=inputs.missing"
        pres = [pre]
        if how == "second":
            pres = [{"assert": "=!inputs.no", "permFail": {"message": "other"}}, pre]
        over = {"preconditions": pres, "api": {"readonly": mode == "readonly"}}
        if mode == "delete":
            over["api"]["deleteIfExists"] = True
        if not plural:
            over["api"]["plural"] = ...
        fn, _ = s.prepare("ResourceFunction", "rf", rf_spec(**over))
        c = Cluster(ip)
        if state != "absent":
            c.put("things", "ns1", "thing-1", live_object(state, False))
        o = reconcile_rf(s, fn, c, {"no": False, "str": "yes"})[0]
        return k, how, s.kind(o)

    def run(rec):
        c = "koreo.resource_function.reconcile.reconcile_resource_function"
        for p in rec.explore(scenario(rec.chk, scen)):
            if p.error:
                rec.undecide(f"{p.error[0]} {getattr(p.error[1], 'value', p.error[1])!r}")
                continue
            s, (k, how, out) = p.outcome
            calls = api_calls(p.events)
            if how == "pass":
                rec.check(bool(calls), "gate-opens", c, lambda: f"preconditions pass but no API call is made (outcome {out})", p)
                continue
            rec.check(not calls, "gate", c, lambda: f"precondition {k} ({how}) does not pass but {[e.data['op'] for e in calls]} is performed", p, event=calls[0] if calls else None)
    return run


def scenarios(chk, tier):
    chk.get("koreo.resource_function.reconcile.reconcile_resource_function")
    groups = (LIVE[:1], LIVE[1:3], LIVE[3:4], LIVE[4:5], LIVE[5:6], LIVE[6:])
    for ro in (False, True):
        for di in (False, True):
            for form in FORMS if tier == "thorough" else (("inline",) if ro or di else ("inline", "overlays")):
                for i, g in enumerate(groups):
                    yield f"modes/readonly={ro}/deleteIfExists={di}/{form}/{'+'.join(g)}", mode_scenario(ro, di, form, g)
    for pl in (True, False):
        for m in ("manage", "readonly", "delete"):
            yield f"gate/plural={pl}/{m}", gate_scenario(pl, m)
