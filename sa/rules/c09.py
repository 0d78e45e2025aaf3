"""C09  Workflow reconcile contains faults, stays truthful, and recovers."""
from ..values import *
from ..scen import *
from ..wf import *

EXPLANATION = (
    "Exception- and cancellation-flow analysis of reconcile_workflow on the modelled event loop: for every workflow shape (plain, forEach, refSwitch, sub-workflow, nested), every "
    "API call of the affected step (lookup, get, create, patch, delete; before or after the request took effect) and every kind of fault (server errors, library errors, arbitrary "
    "exceptions, cancellation, no answer), the path must end in a normal return within the step timeout of virtual time, with the overall outcome Retry or PermFail, no evaluation of "
    "dependents, no condition of reason Ready for a step that did not succeed; then fault-free passes of the same analysed state must reach the cluster and Result of the fault-free run.")
RULES = ["returns: reconcile_workflow returns normally on every path with a fault",
         "in-time: it returns within the step timeout (virtual time)",
         "not-ok: the affected step, hence the overall outcome, is Retry or PermFail",
         "dependents: no expression of a dependent step's Logic is evaluated and no API operation made for it",
         "truthful: no condition claims Ready for a step that did not succeed, nor for the Workflow",
         "converges: once the faults stop, cluster contents and Result equal those of the fault-free run",
         "lookup: a failed or unanswered kind lookup leaves nothing behind that blocks later lookups"]
FLOOR = {"quick": 10000, "thorough": 40000}
R = "koreo.workflow.reconcile.reconcile_workflow"
STEPS = "koreo.workflow.reconcile._reconcile_steps"

RAISES = ("Exception", "ValueError", "KeyError", "TimeoutError", "cancel", "500", "409", "403", "no-response", "notfound", "closed", "api-timeout")
FAULTS = RAISES + ("hang",)


def raise_(ip, kind):
    from ..lib import KR8S_NOT_FOUND, KR8S_CONN_CLOSED, KR8S_TIMEOUT
    if kind == "cancel":
        ip.throw(CANCELLED)
    if kind in ("500", "409", "403"):
        ip.throw(server_error(ip, int(kind), f"status {kind}"))
    if kind == "no-response":
        ip.throw(ip.exc(KR8S_SERVER_ERROR, "no response", status="no status", response=None))
    if kind == "notfound":
        ip.throw(KR8S_NOT_FOUND, "gone")
    if kind == "closed":
        ip.throw(KR8S_CONN_CLOSED, "closed")
    if kind == "api-timeout":
        ip.throw(KR8S_TIMEOUT, "timed out")
    ip.throw(kind, "boom")


class Faults:
    """Injects one fault into the calls `op` for object `name`."""

    def __init__(self, s, op, name, kind, when="before"):
        self.s, self.op, self.name, self.kind, self.when = s, op, name, kind, when
        self.on = True
        self.hits = 0

    def matches(self, op, info):
        ip = self.s.ip
        if not self.on or op != self.op:
            return False
        if op == "lookup":
            return True
        if op == "get":
            n = [ip.force(x) for x in info["names"]]
        elif op == "create":
            n = [ip.force(dict_at(info["payload"], "metadata", "name"))]
        else:
            n = [ip.force(info["name"])]
        return self.name in n

    def before(self, ip, op, info):
        if self.kind != "hang" and self.when == "before" and self.matches(op, info):
            self.hits += 1
            raise_(ip, self.kind)

    def after(self, ip, op, info):
        if self.when == "after" and self.matches(op, info):
            self.hits += 1
            if self.kind == "hang":
                self.hang(ip)
            raise_(ip, self.kind)

    def hang(self, ip):
        prev, ip.loop.latency = ip.loop.latency, lambda ip, l: None
        try:
            f = AFut("io:no answer")
            ip.emit("hang", label=f"response of {self.op}")
            ip.loop.wait_fut(f)
        finally:
            ip.loop.latency = prev

    def latency(self, base):
        def lat(ip, label):
            op, _, n = label.partition(":")
            if self.on and self.kind == "hang" and self.when == "before" and op == self.op and (op == "lookup" or n == self.name):
                self.hits += 1
                return None
            return base(label) if base else 0
        return lat


def function(s, x, upd="patch", lookup=False, mode=None):
    api = {"name": "=inputs.n"}
    if lookup:
        api["plural"] = ...
    if mode == "delete":
        api["deleteIfExists"] = True
    s.cache("ResourceFunction", f"rf-{x}", rf_spec(api=api, update={upd: {"delay": 5}}, create={"delay": 6}, locals={"m": f"='{mark(x)}'"},
                                                   resource={"spec": {"a": 1, "b": "two", "n": "=inputs.n"}},
                                                   **{"return": {"n": "=inputs.n", "mark": f"BODY{mark(x)}"}}))


SHAPES = ("plain", "forEach", "switch", "sub", "subsub", "forEach-sub", "sub-forEach", "last", "late")


def workflow(s, shape, upd="patch", lookup=False, mode=None):
    """Workflow with a step `target` managing obj-t, a dependent step, its dependent, and an unrelated step."""
    function(s, "target", upd, lookup, mode)
    function(s, "free")
    function(s, "dep")
    s.cache("ValueFunction", "vf-dep2", {"return": {"v": f"BODY{mark('dep2')}"}})
    ref = {"kind": "ResourceFunction", "name": "rf-target"}
    target = {"label": "target", "ref": ref, "inputs": {"n": "obj-t"}, "condition": {"type": "Target", "name": "target"}, "state": {"t": "=value"}}
    use = "=steps.target.n"
    if shape == "forEach":
        target.update({"forEach": {"itemIn": "=['obj-s', 'obj-t', 'obj-u']", "inputKey": "n"}, "inputs": {"z": 1}})
        use = "=steps.target[0].n"
    elif shape == "switch":
        del target["ref"]
        target["refSwitch"] = {"switchOn": "=inputs.n", "cases": [{"case": "other", "kind": "ValueFunction", "name": "vf-dep2"}, {"case": "obj-t", **ref}]}
    elif shape in ("sub", "subsub", "forEach-sub", "sub-forEach"):
        inner = {"label": "inner", "ref": ref, "inputs": {"n": "=parent.n"}, "state": {"n": "=value.n"}}
        if shape == "sub-forEach":
            inner.update({"forEach": {"itemIn": "=['obj-s', parent.n]", "inputKey": "n"}, "inputs": {"z": 1}, "state": {"n": "=value[1].n"}})
        after = {"label": "after", "ref": {"kind": "ResourceFunction", "name": "rf-dep"}, "inputs": {"n": "=steps.inner" + ("[1].n" if shape == "sub-forEach" else ".n") + " + '-x'"}, "state": {"m": "=value.n"}}
        s.cache("Workflow", "sub", {"steps": [inner, after]})
        name = "sub"
        if shape == "subsub":
            s.cache("Workflow", "outer", {"steps": [{"label": "middle", "ref": {"kind": "Workflow", "name": "sub"}, "inputs": {"n": "=parent.n"}, "state": {"n": "=value.n"}}]})
            name = "outer"
        target["ref"] = {"kind": "Workflow", "name": name}
        if shape == "forEach-sub":
            target.update({"forEach": {"itemIn": "=['obj-s', 'obj-t']", "inputKey": "n"}, "inputs": {"z": 1}})
            use = "=steps.target[0].n"
    steps = []
    if shape == "late":
        steps.append({"label": "first", "ref": {"kind": "ResourceFunction", "name": "rf-free"}, "inputs": {"n": "obj-first"}, "condition": {"type": "First", "name": "first"}})
        target["inputs"]["after"] = "=steps.first.n"
    free = {"label": "free", "ref": {"kind": "ResourceFunction", "name": "rf-free"}, "inputs": {"n": "obj-f"}, "condition": {"type": "Free", "name": "free"}, "state": {"f": "=value.n"}}
    dep = {"label": "dep", "ref": {"kind": "ResourceFunction", "name": "rf-dep"}, "inputs": {"n": use + " + '-dep'"}, "condition": {"type": "Dep", "name": "dep"}, "state": {"d": "=value"}}
    dep2 = {"label": "dep2", "ref": {"kind": "ValueFunction", "name": "vf-dep2"}, "inputs": {"n": "=steps.dep.n"}, "condition": {"type": "Dep2", "name": "dep2"}, "state": {"d2": "=value.v"}}
    steps += [free, target] if shape == "last" else [target, free, dep, dep2]
    wf, _ = s.prepare("Workflow", "wf", {"steps": steps})
    return wf


STATES = {
    # state: (update policy, mode, ops of the affected call sequence, objects present)
    "absent": ("patch", None, ("get", "create")),
    "drift": ("patch", None, ("get", "patch")),
    "recreate": ("recreate", None, ("get", "delete")),
    "match": ("patch", None, ("get",)),
    "delete": ("patch", "delete", ("get", "delete")),
    "lookup": ("patch", None, ("lookup",)),
}


def cluster_for(s, state, shape):
    c = Cluster(s.ip)
    if state in ("drift", "recreate", "delete"):
        c.put("things", "ns1", "obj-t", thing("obj-t", n="other"))
    elif state in ("match",):
        c.put("things", "ns1", "obj-t", thing("obj-t", n="obj-t"))
    if state in ("lookup",) and s.ip.choose(2, "present"):
        c.put("things", "ns1", "obj-t", thing("obj-t", n="obj-t"))
    for n in ("obj-s", "obj-u", "obj-first"):
        c.put("things", "ns1", n, thing(n, n=n))
    return c


def contents(s, c):
    out = {}
    for k, v in c.store.items():
        o = wire(s.ip, v)
        for f in ("uid", "resourceVersion"):
            o.get("metadata", {}).pop(f, None)
        out[k] = o
    return out


def parts(s, r):
    return {k: freeze(s.ip, s.attr(r, k)) for k in ("result", "conditions", "resource_ids", "state", "state_errors")}


def settle(s, wf, c):
    """Passes until nothing changes any more."""
    last = None
    for _ in range(7):
        r = run_workflow(s, wf, c, {})
        now = (contents(s, c), parts(s, r))
        if now == last:
            break
        last = now
    return r


LATENCY = (None,
           lambda l: 4 if l.endswith("obj-f") else 0.2,
           lambda l: 6 if l.endswith("obj-first") else 3 if l.endswith("obj-s") else 0.1)


def limit(s):
    try:
        t = s.ip.force(s.get("koreo.workflow.reconcile.STEP_TIMEOUT"))
        return max(10, t) + 0.01 if isinstance(t, (int, float)) else 10.01
    except Exception:
        return 10.01


def faulty(shape, state, op, tier):
    upd, mode, _ = STATES[state]
    few = ("Exception", "cancel", "500", "hang") + (("notfound", "KeyError"), ("closed", "409"), ("TimeoutError", "no-response"), ("api-timeout", "ValueError"))[(len(shape) + len(state)) % 4]
    kinds = [k for k in FAULTS if not (op == "get" and k == "notfound") and (tier == "thorough" or shape == "plain" or k in few)]
    cases = [(k, "before") for k in kinds]
    if op in ("create", "patch", "delete"):
        cases += [(k, "after") for k in ("Exception", "500", "409", "cancel", "api-timeout", "hang") if tier == "thorough" or shape == "plain" or k in ("500", "hang")]

    def run(rec):
        ref = {}

        def scen(s):
            ip = s.ip
            c = cluster_for(s, state, shape)
            present = state == "lookup" and c.find("things", "ns1", "obj-t") is not None
            k = ip.choose(len(cases) + 1, "fault")
            lats = LATENCY if shape in ("late", "forEach", "forEach-sub", "sub-forEach") else LATENCY[:2]
            lat = lats[ip.choose(len(lats), "latency") if rec.thorough else (k + len(shape) + len(op)) % len(lats)]
            wf = workflow(s, shape, upd, state == "lookup", mode)
            if k == 0:
                ip.loop.latency = (lambda ip, l: lat(l)) if lat else None
                r = settle(s, wf, c)
                return ("ref", present, contents(s, c), parts(s, r), s.kind(s.attr(r, "result")))
            kind, when = cases[k - 1]
            again = ip.choose(2, "again") if rec.thorough else k % 3 == 0
            f = Faults(s, op, "obj-t", kind, when)
            ip.hooks["api_fault"] = lambda ip, o, i: (f.before(ip, o, i), c.on_call(ip, o, i))[1]
            c.after = f.after
            ip.loop.latency = f.latency(lat)
            seen = []
            for i in range(2 if again else 1):
                n, t0, h0 = len(ip.events), ip.loop.now, f.hits
                try:
                    r = run_workflow(s, wf, c, {})
                except AExc as e:
                    seen.append((e, None, ip.loop.now - t0, ip.events[n:], f.hits > h0))
                    break
                seen.append((None, r, ip.loop.now - t0, ip.events[n:], f.hits > h0))
            f.on = False
            final = None
            if seen[-1][0] is None:
                ip.loop.latency = (lambda ip, l: lat(l)) if lat else None
                final = parts(s, settle(s, wf, c))
            return ("fault", present, kind, when, seen, contents(s, c), final)

        for p in rec.explore(scenario(rec.chk, scen)):
            if p.error:
                rec.check(False, "returns", R, lambda: f"{shape}/{state}/{op}: the pass ends with {p.error[0]} {getattr(p.error[1], 'value', p.error[1])!r}", p)
                continue
            s, out = p.outcome
            ip = s.ip
            if out[0] == "ref":
                ref[out[1]] = out[2:4]
                rec.check(out[4] == "value", "converges", R, lambda: f"{shape}/{state}: the fault-free run ends {out[4]}", p)
                continue
            _, key, kind, when, seen, store, final = out
            for e, r, took, evs, hit in seen:
                what = f"{shape}/{state}: {op} {when} effect {'never answers' if kind == 'hang' else 'fails with ' + kind}"
                if not rec.check(e is None, "returns", R, lambda: f"{what}: reconcile raises {e.value!r}", p, stack=getattr(e, "trace", None)):
                    continue
                rec.check(took <= limit(s), "in-time", R, lambda: f"{what}: returns after {took} s", p)
                if not hit:
                    continue
                o = s.attr(r, "result")
                rec.check(s.kind(o) in ("Retry", "PermFail"), "not-ok", R, lambda: f"{what}: overall outcome is {s.out(o)}", p)
                cl = {}
                for cnd in ip.listof(s.attr(r, "conditions")):
                    cnd = ip.force(cnd)
                    t, reason = (ip.force(ip.getitem(cnd, "type")), ip.force(ip.getitem(cnd, "reason"))) if isinstance(cnd, ADict) else (s.attr(cnd, "type"), s.attr(cnd, "reason"))
                    cl.setdefault(t, []).append(REASONS.get(reason, reason))
                for t in ("Ready", "Target", "Dep", "Dep2"):
                    rec.check("Ok" not in cl.get(t, []), "truthful", STEPS, lambda: f"{what}: a condition of type {t} claims Ready ({cl})", p)
                if "Ok" in cl.get("Free", []):
                    rec.check(body_count(evs, "free") >= 1, "truthful", STEPS, lambda: f"{what}: condition Free is Ready though the step never finished", p)
                if "Target" in cl:
                    rec.check(cl["Target"] in (["Retry"], ["PermFail"]), "not-ok", STEPS, lambda: f"{what}: the affected step is reported {cl['Target']}", p)
                bad = [e2 for e2 in evs if e2.kind == "evaluate" and (mark("dep") in runner_text(e2) and shape not in ("forEach-sub",) or mark("dep2") in runner_text(e2))]
                bad += [e2 for e2 in evs if e2.kind == "api" and any(n.endswith("-dep") or n == "obj-t-x" for n in api_names(e2))]
                rec.check(not bad, "dependents", STEPS, lambda: f"{what}: Logic of a dependent step runs: {bad[:2]}", p, event=first(bad))
                st = freeze(ip, s.attr(r, "state"))
                rec.check("'t'" not in str(st) and "'d'" not in str(st), "truthful", STEPS, lambda: f"{what}: state of a failed step is published: {st}", p)
            if final is not None and key in ref:
                wstore, wparts = ref[key]
                rule = "lookup" if op == "lookup" else "converges"
                rec.check(store == wstore, rule, R, lambda: f"{shape}/{state}: after {op} {kind} ({when}) the cluster ends as {store!r}, fault-free as {wstore!r}", p)
                for x in wparts:
                    rec.check(final[x] == wparts[x], rule, f"{R}:{x}", lambda: f"{shape}/{state}: after {op} {kind} ({when}) the pass gives {x} {final[x]!r}, fault-free {wparts[x]!r}", p)
    return run


def shared_lookup(rec):
    """Two steps (or two Workflows) that need the same kind lookup, which fails."""
    kinds = [k for k in FAULTS]

    def build(s, two):
        s.cache("ResourceFunction", "rf", rf_spec(api={"name": "=inputs.n", "plural": ...}, **{"return": {"n": "=inputs.n"}}))
        step = lambda n: {"label": f"step_{n}", "ref": {"kind": "ResourceFunction", "name": "rf"}, "inputs": {"n": f"obj-{n}"}, "condition": {"type": f"T{n}", "name": n}, "state": {n: "=value.n"}}
        if two:
            return [s.prepare("Workflow", f"wf{n}", {"steps": [step(n)]})[0] for n in "ab"]
        return [s.prepare("Workflow", "wf", {"steps": [step("a"), step("b")]})[0]]

    def scen(s):
        ip = s.ip
        two = ip.choose(2, "two")
        k = kinds[ip.choose(len(kinds), "fault")]
        gap = (0, 3, 12)[ip.choose(3 if two else 1, "gap")]
        wfs = build(s, two)
        c = Cluster(ip)
        f = Faults(s, "lookup", None, k)
        ip.hooks["api_fault"] = lambda ip, o, i: (f.before(ip, o, i), c.on_call(ip, o, i))[1]
        ip.loop.latency = f.latency(lambda l: 1 if l.startswith("lookup") else 0.2)

        def go(wf, delay):
            if delay:
                ip.loop.sleep(delay)
            t0 = ip.loop.now
            try:
                r = run_workflow(s, wf, c, {})
                return None, s.kind(s.attr(r, "result")), ip.loop.now - t0, condition_classes(s, r)
            except AExc as e:
                return e, None, ip.loop.now - t0, {}
        ts = [s.spawn(lambda wf=wf, d=i * gap: go(wf, d), f"wf{i}") for i, wf in enumerate(wfs)]
        res = [ip.await_(t) for t in ts]
        f.on = False
        later = []
        for wf in wfs:
            for _ in range(2):
                r = run_workflow(s, wf, c, {})
            later.append(s.out(s.attr(r, "result"))[0])
        return k, two, gap, res, later, len(c.store)

    for p in rec.explore(scenario(rec.chk, scen)):
        if p.error:
            rec.check(False, "returns", R, lambda: f"shared lookup: {p.error[0]} {getattr(p.error[1], 'value', p.error[1])!r}", p)
            continue
        s, (k, two, gap, res, later, n) = p.outcome
        what = f"lookup {'never answers' if k == 'hang' else 'fails with ' + k}, shared by two {'Workflows' if two else 'steps'} {gap} s apart"
        for e, kind, took, cl in res:
            if not rec.check(e is None, "returns", R, lambda: f"{what}: raises {e.value!r}", p, stack=getattr(e, "trace", None)):
                continue
            rec.check(took <= limit(s), "in-time", R, lambda: f"{what}: returns after {took} s", p)
            rec.check(kind in ("Retry", "PermFail"), "not-ok", R, lambda: f"{what}: overall outcome {kind}", p)
            rec.check("Ok" not in cl.values(), "truthful", STEPS, lambda: f"{what}: conditions {cl}", p)
        rec.check(all(x in ("Ok", "value") or x == "Ok" for x in later) and n == 2, "lookup", "koreo.resource_function.reconcile.kind_lookup.get_plural_kind",
                  lambda: f"{what}: after the fault stops two passes give {later}, {n} objects exist", p)


def two_faults(state, k1, tier):
    """Different faults in consecutive passes and in two steps at once."""
    ks = ("Exception", "500", "cancel", "hang") if tier == "thorough" else ("Exception", "cancel", "hang")
    return lambda rec: _two_faults(rec, state, k1, ks)


def _two_faults(rec, state, k1, ks):
    def scen(s):
        ip = s.ip
        wf = workflow(s, "plain")
        c = cluster_for(s, state, "plain")
        op = {"drift": "patch", "absent": "create"}[state]
        f1 = Faults(s, "get", "obj-t", k1)
        f2 = Faults(s, op, "obj-t", ks[ip.choose(len(ks), "f2")], ("before", "after")[ip.choose(2, "when")])
        f3 = Faults(s, "get", "obj-f", ks[ip.choose(len(ks), "f3")])
        fs = [f1, f2, f3]
        c.after = lambda ip, o, i: [f.after(ip, o, i) for f in fs]
        ip.hooks["api_fault"] = lambda ip, o, i: ([f.before(ip, o, i) for f in fs], c.on_call(ip, o, i))[1]
        lat = ip.loop.latency = lambda ip, l: None if any(f.latency(None)(ip, l) is None for f in fs) else 0.3
        out = []
        for active in ((f1, f3), (f2,), (f1, f2, f3), (f3,)):
            for f in fs:
                f.on = f in active
            t0 = ip.loop.now
            try:
                r = run_workflow(s, wf, c, {})
                out.append((None, s.kind(s.attr(r, "result")), ip.loop.now - t0, condition_classes(s, r)))
            except AExc as e:
                out.append((e, None, 0, {}))
        for f in fs:
            f.on = False
        for _ in range(4):
            r = run_workflow(s, wf, c, {})
        return out, contents(s, c), parts(s, r), s.kind(s.attr(r, "result"))

    base = {}
    for p in rec.explore(scenario(rec.chk, scen)):
        if p.error:
            rec.check(False, "returns", R, lambda: f"two faults: {p.error[0]} {getattr(p.error[1], 'value', p.error[1])!r}", p)
            continue
        s, (out, store, fin, kind) = p.outcome
        for e, k, took, cl in out:
            if rec.check(e is None, "returns", R, lambda: f"faults in two steps: raises {e.value!r}", p, stack=getattr(e, "trace", None)):
                rec.check(took <= limit(s), "in-time", R, lambda: f"faults in two steps: returns after {took}", p)
        for e, k, took, cl in (out[0], out[2]):
            if e is None:
                rec.check(k in ("Retry", "PermFail"), "not-ok", R, lambda: f"faults in two steps: overall {k}", p)
                rec.check("Ok" not in (cl.get("Target"), cl.get("Ready"), cl.get("Free")), "truthful", STEPS, lambda: f"faults in two steps: conditions {cl}", p)
        rec.check(kind == "value", "converges", R, lambda: f"after several faulty passes the result is {kind}", p)
        b = base.setdefault("x", (sorted(store), fin))
        rec.check((sorted(store), fin) == b, "converges", R, lambda: f"after several faulty passes: {fin!r} and {sorted(store)}, elsewhere {b!r}", p)


def scenarios(chk, tier):
    chk.get(R)
    for shape in SHAPES:
        for state, (_, _, ops) in STATES.items():
            if tier == "quick" and shape in ("subsub", "sub-forEach") and state in ("match", "delete", "lookup"):
                continue
            for op in ops:
                yield f"fault/{shape}/{state}/{op}", faulty(shape, state, op, tier)
    yield "shared-lookup", shared_lookup
    for state in ("absent", "drift"):
        for k1 in ("Exception", "500", "cancel", "hang"):
            if tier == "thorough" or k1 != "500":
                yield f"two-faults/{state}/{k1}", two_faults(state, k1, tier)
