"""C16  Hot reload is coherent: dependents are re-prepared after every change."""
import copy
import itertools

from ..values import *
from ..scen import *
from ..lib import to_abs, RUNNER
from ..ft import PRE, POST, RES, RET
from ..rf import judged

EXPLANATION = (
    "The cache and registry are interpreted together with a model of the asyncio loop (one suspended coroutine per task, exact ready-queue order, virtual clock). Preparers record the identity of the "
    "dependency entries they looked up. Histories of offers (every choice of acyclic dependencies), deletes and re-offers over three and four resources are enumerated exhaustively up to the bound, each "
    "with every placement (0, 1, 2, ... loop turns, or idle) between operations, with preparers which finish at once and ones which suspend first. When the system is idle each cached entry must have "
    "been built from the latest offered spec and from the current entries of everything it depends on, the subscription graph must be the declared one, and no task or queue of a deleted resource is left. "
    "With the real preparers, an entry which is prepared again several times must equal a first preparation of the spec which was offered (a preparer edits the spec it is handed, so the cache has to hand out copies).")
RULES = ["current: once idle, every cached entry was built from the current entry of each dependency",
         "spec: every cached entry was built from the spec offered last",
         "entries: exactly the resources offered and not deleted are cached",
         "watching: a cached resource is subscribed to exactly its dependencies",
         "released: a deleted resource has no subscription, no queue and no task",
         "idle: the system becomes idle",
         "no-error: no operation and no background task raises"]
FLOOR = {"quick": 150000, "thorough": 900000}

CACHE = "koreo.cache.prepare_and_cache"
DELETE = "koreo.cache.delete_from_cache"
DELETE_META = "koreo.cache.delete_resource_from_cache"
LOOKUP = "koreo.cache.get_resource_from_cache"
REPREPARE = "koreo.cache._monitor_and_reprepare"
KINDS = ["ValueFunction", "ResourceFunction", "Workflow", "FunctionTest"]


class World:
    """One history: a universe of resources and the preparer which builds them."""

    def __init__(self, s, later, tag, suspend=None, kinds=KINDS, early=False, equal=False):
        self.s, self.later, self.tag, self.suspend, self.kinds = s, later, tag, suspend, kinds
        self.early, self.equal = early, equal
        self.made = {}
        self.offering = set()
        self.want = {}
        self.version = 0
        self.prepared = 0
        self.trace = []
        ip = s.ip
        self.preparer = ABuiltin("preparer", lambda ip, a, k: ACoro(lambda: self.prepare(ip, a[0], a[1]), "preparer"))
        self.seen_events = len(ip.events)
        self.base_tasks = {id(t) for t in ip.tasks if not t.done}

    def cls(self, n):
        return self.s.get(PREPARERS[self.kinds["ABCD".index(n) % len(self.kinds)]][1])

    def key(self, n):
        return f"{self.tag}{n}"

    def resource(self, n):
        return self.s.ip.call(self.s.get("koreo.registry.Resource"), [], {"resource_type": self.cls(n), "name": self.key(n)})

    def lookup(self, n):
        return self.s.ip.force(self.s.call(LOOKUP, resource_class=self.cls(n), cache_key=self.key(n)))

    def info(self, made):
        """(version, {looked up: entry found}, failed) of what a preparation returned."""
        return self.made.get(id(made), (None, None, {}, False))[1:]

    def version_of(self, made):
        return self.info(made)[0] or 0

    def subscribed(self, n):
        s, ip = self.s, self.s.ip
        return {str(ip.force(s.attr(r, "name"))) for r in ip.listof(s.call("koreo.registry.get_subscriptions", self.resource(n)))}

    def prepare(self, ip, key, spec):
        s = self.s
        self.prepared += 1
        n = str(ip.force(key))[len(self.tag):]
        spec = ip.force(spec)
        v = ip.force(ip.dict_get(spec, "v"))
        deps = [str(ip.force(d)) for d in ip.listof(ip.dict_get(spec, "deps"))]
        fail, via = ip.force(ip.dict_get(spec, "fail")), ip.force(ip.dict_get(spec, "via"))
        seen = {}

        def look(d):
            if d not in seen:
                seen[d] = self.lookup(d)
            return seen[d]

        # A re-preparation may look up what it is subscribed to before it suspends.
        if self.early and n not in self.offering:
            known = self.subscribed(n)
            for d in deps[self.prepared % 2:] if not via else deps[:1]:
                if self.key(d) in known:
                    look(d)
        if self.suspend:
            for _ in range(self.suspend(self.prepared)):
                ip.loop.pause()
        if via:
            first, rest = deps[0], deps[1:]
            k = self.version_of(look(first)) % (len(rest) + (len(rest) < 2))
            deps = [first] + rest[k:k + 1]
        for d in deps:
            look(d)
        moody = ip.force(ip.dict_get(spec, "moody")) and any(self.version_of(x) % 3 == v % 2 for x in seen.values())
        if fail or moody:
            out = ip.call(s.cls[("PermFail", "Retry", "DepSkip")[v % 3 if not self.equal else 0]], [], {"message": f"v{v}" if not self.equal else "no"})
            self.made[id(out)] = (out, v, {}, True)
            return out
        made = AInst(OBJECT, {"v": v}) if not self.equal else to_abs({"made": n})
        self.made[id(made)] = (made, v, seen, False)
        return (made, AList([self.resource(d) for d in deps]) if deps or v % 2 else None)

    def offer(self, n, deps, how="offer"):
        self.version += 1
        v = self.version
        self.want[n] = (v, deps, how)
        return self.give(n)

    def give(self, n):
        v, deps, how = self.want[n]
        mine = n not in self.offering
        self.offering.add(n)
        try:
            return self.s.call(CACHE, resource_class=self.cls(n), preparer=self.preparer, metadata=to_abs({"name": self.key(n), "resourceVersion": f"r{v}"}),
                               spec=to_abs({"v": v, "deps": list(deps), "fail": how == "fail", "via": how == "via", "moody": how == "moody"}))
        finally:
            if mine:
                self.offering.discard(n)

    def reoffer(self, n):
        """The same version once more."""
        return self.give(n) if n in self.want else self.offer(n, "")

    def delete(self, n, how=0):
        self.want.pop(n, None)
        if how:
            self.s.call(DELETE_META, resource_class=self.cls(n), metadata=to_abs({"name": self.key(n), "resourceVersion": "x"}))
        else:
            self.s.call(DELETE, resource_class=self.cls(n), cache_key=self.key(n))

    def act(self, op):
        ip = self.s.ip
        self.trace.append(show(op))
        try:
            if op[0] == "wait":
                self.wait(op[1])
            elif op[0] == "del":
                self.delete(op[1], self.version % 2)
            elif op[0] == "same":
                self.reoffer(op[1])
            elif op[0] == "cycle":
                # deleted and offered again in one go
                self.delete(op[1])
                self.offer(op[1], op[2])
            else:
                self.offer(op[1], op[2], op[0])
        except AExc as e:
            self.later.check(False, "no-error", DELETE if op[0] == "del" else CACHE, lambda: f"{self.where()}: raises {e.value!r}"[:400])

    def wait(self, turns):
        ip = self.s.ip
        if turns == IDLE:
            self.settle()
        else:
            for _ in range(turns):
                ip.loop.pause()

    def settle(self):
        """Let everything run until only this task is left."""
        ip = self.s.ip
        for _ in range(400):
            if not ip.loop.ready:
                return True
            ip.loop.pause()
            if not ip.loop.ready:
                return True
        self.later.check(False, "idle", REPREPARE, lambda: f"{self.where()}: does not become idle")
        return False

    def where(self):
        return " ".join(self.trace)

    def judge(self):
        s, ip, chk = self.s, self.s.ip, self.later.check
        if not self.settle():
            return
        seen, uses = {}, {}
        for n in "ABCD":
            seen[n] = self.lookup(n)
        for n in "ABCD":
            have = seen[n]
            chk((have is not None) == (n in self.want), "entries", CACHE if n in self.want else DELETE, lambda: f"{self.where()}: {n} is {'cached' if have is not None else 'not cached'}"[:400])
            subs = sorted(str(ip.force(s.attr(r, "name"))) for r in ip.listof(s.call("koreo.registry.get_subscriptions", self.resource(n))))
            if have is None or n not in self.want:
                chk(not subs, "released", DELETE, lambda: f"{self.where()}: {n} is deleted and still subscribed to {subs}"[:400])
                continue
            v, deps, how = self.want[n]
            built, looked, failed = self.info(have)
            chk(built == v, "spec", CACHE, lambda: f"{self.where()}: {n} was built from version {built}, last offered is {v}"[:400])
            uses[n] = looked
            chk(subs == sorted(self.key(d) for d in looked), "watching", CACHE, lambda: f"{self.where()}: {n} declares {list(looked)} and is subscribed to {subs}"[:400])
            for d in looked:
                chk(looked[d] is seen[d], "current", REPREPARE, lambda: f"{self.where()}: {n} was built from {self.label(looked[d])} of {d}, current is {self.label(seen[d])}"[:400])
        for n in "ABCD":
            users = {str(ip.force(s.attr(r, "name"))) for r in ip.listof(s.call("koreo.registry.get_subscribers", self.resource(n)))}
            expected = {self.key(m) for m, looked in uses.items() if n in looked}
            chk(users == expected, "watching", CACHE, lambda: f"{self.where()}: subscribers of {n} are {sorted(users)}, expected {sorted(expected)}"[:400])
        errors = [e for e in ip.events[self.seen_events:] if e.kind == "callback_error"]
        self.seen_events = len(ip.events)
        chk(not errors, "no-error", REPREPARE, lambda: f"{self.where()}: a callback raised {errors[0].data['exc'].value!r}"[:400])
        for t in ip.tasks:
            if id(t) not in self.base_tasks and t.done and not t.cancelled and t.exc is not None:
                chk(False, "no-error", REPREPARE, lambda: f"{self.where()}: background task raised {t.exc.value!r}"[:400])

    def label(self, v):
        return "no entry" if v is None else f"version {self.version_of(v)}"

    def close(self):
        """Delete everything: nothing may be left."""
        ip = self.s.ip
        for n in "CADB":
            self.act(("del", n))
        self.judge()
        left = [t.name for t in ip.tasks if id(t) not in self.base_tasks and not t.done]
        self.later.check(not left, "released", DELETE, lambda: f"{self.where()}: everything is deleted, tasks left: {left}"[:400])


def show(op):
    if op[0] == "wait":
        return f"({'idle' if op[1] == IDLE else op[1]})"
    return f"{op[0]}:{op[1]}" + (f"[{op[2]}]" if len(op) > 2 else "")


IDLE = -1
A, A2 = ("offer", "A", ""), ("fail", "A", "")
OPS = [("offer", "A", ""), ("offer", "B", ""), ("offer", "B", "A"), ("offer", "C", "A"), ("offer", "C", "B"), ("offer", "C", "AB"), ("del", "A"), ("del", "B"), ("del", "C")]
SETUPS = {
    "chain": [("offer", "A", ""), ("offer", "B", "A"), ("offer", "C", "B"), ("wait", IDLE)],
    "reverse": [("offer", "C", "AB"), ("offer", "B", "A"), ("wait", IDLE)],
    "diamond": [("offer", "A", ""), ("offer", "B", "A"), ("offer", "C", "AB"), ("offer", "D", "BC"), ("wait", IDLE)],
    "fresh": [],
    "fan": [("offer", "A", ""), ("offer", "B", "A"), ("offer", "C", "A"), ("offer", "D", "A")],
}
MODES = {"now": ("now", 0, 0), "late": ("late", 0, 0), "slow": ("slow", 0, 0), "mixed": ("mixed", 0, 0), "odd": ("odd", 0, 0),
         "equal": ("now", 0, 1), "early": ("slow", 1, 0), "early-mixed": ("mixed", 1, 0), "early-equal": ("late", 1, 1)}
SUSPEND = {"now": None, "late": lambda n: 1, "slow": lambda n: 3, "mixed": lambda n: (0, 2, 1, 4)[n % 4], "odd": lambda n: n % 2 * 2}


def histories(items, suspend, kinds=KINDS):
    def body(s, later):
        for i, (setup, ops) in enumerate(items):
            sus, early, equal = MODES[suspend]
            w = World(s, later, f"h{i}-", SUSPEND[sus], kinds, early, equal)
            for op in SETUPS[setup]:
                w.act(op)
            for op in ops:
                w.act(op)
            w.judge()
            w.close()
    return body


def actors(items, suspend):
    """Two watchers at work concurrently, each with resources of its own."""
    def body(s, later):
        ip = s.ip
        for i, (setup, parts) in enumerate(items):
            sus, early, equal = MODES[suspend]
            w = World(s, later, f"h{i}-", SUSPEND[sus], KINDS, early, equal)
            for op in SETUPS[setup]:
                w.act(op)

            def work(ops):
                def go():
                    for op in ops:
                        w.act(op)
                return go
            tasks = [s.spawn(work(p), f"actor {k}") for k, p in enumerate(parts)]
            w.base_tasks.update(id(t) for t in tasks)
            for t in tasks:
                ip.await_(t)
            w.judge()
            w.close()
    return body


def spaced(ops, gaps):
    out = []
    for op, g in itertools.zip_longest(ops, gaps):
        out.append(op)
        if g:
            out.append(("wait", g))
    return out


def chunk(items, n):
    for i in range(0, len(items), n):
        yield i, items[i:i + n]


def one_kind(s, later):
    """Dependencies between resources of one kind, and equal names in different kinds."""
    for k in range(len(KINDS)):
        for g in (0, 1, 2, 3):
            w = World(s, later, f"k{k}{g}-", None, [KINDS[k]])
            for op in spaced([("offer", "A", ""), ("offer", "B", "A"), ("offer", "C", "AB"), ("del", "A"), ("offer", "A", ""), ("del", "B"), ("offer", "B", "A"), ("offer", "A", "")], [g] * 7):
                w.act(op)
            w.judge()
            w.close()


REAL = {
    "vf": ("ValueFunction", lambda n: {"return": {"spec": {"n": n}}}),
    "rf": ("ResourceFunction", lambda n: rf_spec(overlays=[{"overlayRef": {"kind": "ValueFunction", "name": "vf"}}], **{"return": {"n": n}})),
    "wf": ("Workflow", lambda n: {"steps": [{"label": "the_step", "ref": {"kind": "ResourceFunction", "name": "rf"}, "inputs": {"n": n}}, {"label": "other", "ref": {"kind": "ValueFunction", "name": "vf"}}]}),
    "outer": ("Workflow", lambda n: {"steps": [{"label": "inner", "refSwitch": {"switchOn": "='a'", "cases": [{"case": "a", "kind": "Workflow", "name": "wf"}, {"case": f"b{n}", "kind": "ValueFunction", "name": "vf"}]}}]}),
    "ft": ("FunctionTest", lambda n: {"functionRef": {"kind": "ResourceFunction", "name": "rf"}, "testCases": [{"label": f"case {n}", "expectReturn": {"n": n}}]}),
}
USES = {"rf": ["vf"], "wf": ["rf", "vf"], "outer": ["wf", "vf"], "ft": ["rf"], "vf": []}


def reach(ip, v, target, depth=0, seen=None):
    """Does the prepared structure v hold the prepared object target (without looking inside other entries)?"""
    seen = set() if seen is None else seen
    v = ip.force(v)
    if v is target:
        return True
    if depth > 8 or id(v) in seen or not isinstance(v, (Heap, tuple)):
        return False
    seen.add(id(v))
    if isinstance(v, AInst):
        parts = list(v.attrs.values())
    elif isinstance(v, (AList, tuple)):
        parts = list(ip.listof(v)) if isinstance(v, AList) else list(v)
    elif isinstance(v, ADict):
        parts = [b for _, b in ip.items_of(v)] if hasattr(ip, "items_of") else [b for _, b in v.e.values()]
    else:
        return False
    return any(reach(ip, p, target, depth + 1, seen) for p in parts)


def real(order, ops, gaps):
    def body(s, later):
        ip = s.ip
        n = [0]
        there = {}
        trace = []

        def offer(x):
            n[0] += 1
            kind, spec = REAL[x]
            there[x] = s.cache(kind, x, spec(n[0]), f"v{n[0]}")

        def delete(x):
            there.pop(x, None)
            s.call(DELETE, resource_class=s.get(PREPARERS[REAL[x][0]][1]), cache_key=x)

        w = World(s, later, "real-")
        for x in order:
            trace.append(f"offer {x}")
            offer(x)
        for (what, x), g in zip(ops, gaps):
            w.wait(g)
            trace.append(f"({g}) {what} {x}")
            if what == "offer":
                offer(x)
            elif what == "again":
                delete(x)
                offer(x)
            else:
                delete(x)
        w.trace = trace
        if not w.settle():
            return
        text = " ".join(trace)
        now = {x: ip.force(s.call(LOOKUP, resource_class=s.get(PREPARERS[REAL[x][0]][1]), cache_key=x)) for x in REAL}
        for x in REAL:
            later.check((now[x] is not None) == (x in there), "entries", CACHE, lambda: f"{text}: {x} is {s.show(now[x])}"[:300])
            if now[x] is None:
                continue
            for d in USES[x]:
                if now[d] is not None:
                    ready = s.kind(now[d]) == "value"
                    if ready and ready_as_expected(x, there):
                        later.check(reach(ip, now[x], now[d]), "current", REPREPARE, lambda: f"{text}: {x} does not use the current {d}"[:300])
                else:
                    later.check(not any(reach(ip, now[x], old) for old in [there.get(d)] if old is not None), "current", REPREPARE, lambda: f"{text}: {x} uses a deleted {d}"[:300])
            later.check(ready_as_expected(x, there) == usable(s, ip, x, now[x]), "current", REPREPARE, lambda: f"{text}: {x} is {s.show(now[x])}, expected {'usable' if ready_as_expected(x, there) else 'not usable'}"[:400])
    return body


RICH_BASE = {
    "ov": ("ValueFunction", lambda n: {"return": {"spec": {"ov": n, "m": "=inputs.m"}}}),
    "plain": ("ValueFunction", lambda n: {"return": {"n": n}}),
    "tpl": ("ResourceTemplate", lambda n: {"template": {"apiVersion": "test.koreo.dev/v1", "kind": "Thing", "spec": {"from": "template", "n": n}}, "context": {"c": n}}),
    "fut": ("ResourceFunction", lambda n: rf_spec(preconditions=PRE, postconditions=POST, resource=RES, **{"return": {"n": n, "m": "=inputs.n"}})),
    "sub": ("Workflow", lambda n: {"steps": [{"label": "only", "ref": {"kind": "ValueFunction", "name": "plain"}}], "crdRef": {"apiGroup": "a.b", "version": "v1", "kind": f"K{n}"}}),
}
OVERLAYS = [{"skipIf": "=inputs.n > 3", "overlay": {"spec": {"one": "=inputs.n"}}},
            {"skipIf": "=inputs.n > 5", "overlayRef": {"kind": "ValueFunction", "name": "ov"}, "inputs": {"m": "=inputs.m", "deep": {"x": ["=inputs.n", 1]}}},
            {"overlayRef": {"kind": "ValueFunction", "name": "ov"}, "inputs": {"m": 1}}, {"overlay": {"metadata": {"labels": {"l": "=inputs.n"}}}}]
FULL = dict(preconditions=PRE, postconditions=POST, locals={"x": "=inputs.n + 1"}, create={"enabled": True, "delay": 9, "overlay": {"spec": {"first": "=inputs.n"}}}, update={"patch": {"delay": 7}}, delete={"abandon": {}}, **{"return": RET})
STEPS = [{"label": "first", "ref": {"kind": "ResourceFunction", "name": "fut"}, "inputs": {"n": "=parent.spec.n", "l": [1, {"q": "=parent.x"}]}, "skipIf": "=parent.spec.off", "condition": {"type": "T", "name": "first thing"}, "state": {"n": "=value.n"}},
         {"label": "second", "ref": {"kind": "ValueFunction", "name": "plain"}, "forEach": {"itemIn": "=[1, 2]", "inputKey": "item"}, "inputs": {"from": "=steps.first.n"}, "state": {"all": "=value"}},
         {"label": "third", "refSwitch": {"switchOn": "=steps.first.m", "cases": [{"case": "a", "kind": "Workflow", "name": "sub"}, {"case": "b", "kind": "ValueFunction", "name": "plain", "default": True}]}, "inputs": {"k": "=steps.second"}}]
CASES = [{"label": "one", "inputOverrides": {"n": 4}, "expectReturn": {"n": 1}},
         {"variant": True, "label": "two", "overlayResource": {"spec": {"b": "='x'"}}, "expectResource": {"spec": {"b": "x"}}},
         {"skip": True, "currentResource": {"spec": {"a": 2}}, "expectOutcome": {"retry": {"message": "wait", "delay": 7}}}, {"expectDelete": True}]
RICH = {
    "overlays": ("ResourceFunction", rf_spec(overlays=OVERLAYS, resource=RES, **FULL), ["ov"]),
    "template": ("ResourceFunction", rf_spec(resource=..., resourceTemplateRef={"name": "tpl"}, overlays=OVERLAYS, **FULL), ["tpl", "ov"]),
    "any-template": ("ResourceFunction", rf_spec(resource=..., resourceTemplateRef={"name": "='t' + inputs.t"}, overlays=OVERLAYS, **FULL), ["ov"]),
    "steps": ("Workflow", {"crdRef": {"apiGroup": "g.io", "version": "v1", "kind": "W"}, "steps": STEPS}, ["fut", "plain", "sub"]),
    "resource-test": ("FunctionTest", {"functionRef": {"kind": "ResourceFunction", "name": "fut"}, "inputs": {"n": 1, "m": "=1 + 1"}, "currentResource": {"spec": {"a": 1}}, "testCases": CASES}, ["fut"]),
    "value-test": ("FunctionTest", {"functionRef": {"kind": "ValueFunction", "name": "plain"}, "inputs": {"n": 1}, "testCases": CASES[:1]}, ["plain"]),
}


def shape(ip, v, depth=0, path=()):
    """What a prepared structure is made of, without identities."""
    v = ip.force(v)
    if depth > 40 or id(v) in path:
        return "..."
    path = path + (id(v),)
    go = lambda x: shape(ip, x, depth + 1, path)
    if isinstance(v, AInst):
        if v.cls.issub(RUNNER):
            return ("program", repr(v.attrs.get("text")), go(v.attrs.get("ast")))
        if v.cls.name == "Logger":
            return "logger"
        return (v.cls.full, tuple((k, go(x)) for k, x in sorted(v.attrs.items()) if not k.startswith("__")))
    if isinstance(v, ADict):
        return ("map", tuple((repr(go(k)), go(x)) for k, x in ip.dict_items(v)))
    if isinstance(v, (AList, tuple)):
        return ("list", tuple(go(x) for x in ip.listof(v)))
    if isinstance(v, ASet):
        return ("set", tuple(sorted(repr(go(x)) for x in v.e.values())))
    if isinstance(v, AFunc):
        return ("function", v.full)
    if isinstance(v, (AClass, ABuiltin)):
        return ("callable", v.name)
    if v is None or isinstance(v, (bool, int, float, str, bytes)):
        return (type(v).__name__, repr(v))
    return type(v).__name__


def first_difference(a, b, where=""):
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            d = first_difference(x, y, f"{where}.{a[0] if i and isinstance(a[0], str) else i}")
            if d:
                return d
        return None
    return None if a == b else f"{where}: {str(a)[:120]} != {str(b)[:120]}"


def rebuilt(name, gaps):
    """However often an entry is prepared again, it equals what its spec is prepared to now."""
    def body(s, later):
        ip = s.ip
        kind, spec, deps = RICH[name]
        s.memoise = False
        w = World(s, later, "rich-")
        n = 0
        for d in RICH_BASE:
            s.cache(RICH_BASE[d][0], d, RICH_BASE[d][1](n), f"v{n}")
        if not w.settle():
            return
        s.cache(kind, name, copy.deepcopy(spec), "v1")
        trace = f"offer {name}"

        def compare():
            if not w.settle():
                return False
            have = ip.force(s.call(LOOKUP, resource_class=s.get(PREPARERS[kind][1]), cache_key=name))
            again = s.prepare_raw(kind, name, copy.deepcopy(spec))
            if not later.check(have is not None and s.kind(again) == "value" and isinstance(again, tuple), "current", REPREPARE, lambda: f"{trace}: {s.out(have)} / {s.out(again)}"[:300]):
                return False
            a, b = shape(ip, have), shape(ip, again[0])
            later.check(a == b, "spec", REPREPARE, lambda: f"{trace}: the entry differs from a new preparation of its spec: {first_difference(a, b)}"[:400])
            return True
        if not compare():
            return
        for g in gaps:
            for d in deps:
                n += 1
                s.cache(RICH_BASE[d][0], d, RICH_BASE[d][1](n), f"v{n}")
                trace += f" ({g}) {d}"
                w.wait(g)
            if not compare():
                return
    return body


def ready_as_expected(x, there):
    return x in there and all(d in there for d in USES[x])


def usable(s, ip, x, entry):
    """Is the entry usable, by its own account."""
    if s.kind(entry) != "value":
        return False
    if x == "rf":
        return s.kind(s.attr(s.attr(entry, "crud_config"), "overlays")) == "value"
    if x in ("wf", "outer"):
        return s.kind(s.attr(entry, "steps_ready")) in ("Ok", "value")
    if x == "ft":
        return s.kind(s.attr(entry, "function_under_test")) == "value"
    return True


def scenarios(chk, tier):
    J = lambda body, label, rule="current": lambda rec: judged(rec, body, rule, label, construct=CACHE)
    deep = tier != "quick"
    gaps = (0, 1, 2, 3, 4, IDLE)
    x = [12345]

    def pick(items, n):
        """n of the items, spread pseudo-randomly (always the same ones)."""
        items = list(items)
        if n >= len(items):
            return items
        out = []
        for i in range(n):
            x[0] = (x[0] * 1103515245 + 12345) % 2 ** 31
            lo, hi = i * len(items) // n, (i + 1) * len(items) // n
            out.append(items[lo + x[0] // 97 % max(1, hi - lo)])
        return out

    size = 40
    for setup in SETUPS:
        for sus in MODES:
            two = [(setup, spaced(p, (g,))) for p in itertools.product(OPS + [("same", "A"), ("same", "B"), ("same", "C")], repeat=2) for g in gaps]
            if not deep and sus != "now":
                two = pick(two, 120)
            for i, h in chunk(two, size):
                yield f"two-{setup}-{sus}:{i}", J(histories(h, sus), f"two {setup} {sus} {i}")
    for setup in SETUPS:
        for sus in MODES:
            three = [(setup, spaced(p, g)) for p in itertools.product(OPS, repeat=3) for g in itertools.product(gaps[:5], repeat=2)]
            for i, h in chunk(pick(three, 120 if not deep else 1200), size):
                yield f"three-{setup}-{sus}:{i}", J(histories(h, sus), f"three {setup} {sus} {i}")
    more = OPS + [("fail", "A", ""), ("fail", "B", "A"), ("same", "A"), ("same", "B"), ("cycle", "A", ""), ("cycle", "B", "A"), ("cycle", "C", "AB"), ("cycle", "C", "B"), ("via", "C", "AB"), ("via", "D", "ABC"), ("via", "D", "AB"), ("moody", "B", "A"), ("moody", "C", "AB"), A, ("offer", "B", "A")]
    for sus in MODES:
        chosen = [("fan", spaced([c, *p], (IDLE,) + g)) for c in (("via", "C", "AB"), ("via", "D", "AB"), ("via", "D", "ABC"), ("moody", "B", "A"), ("moody", "C", "AB")) for p in itertools.product([A, ("offer", "B", ""), ("offer", "B", "A"), ("del", "A"), ("del", "B"), ("fail", "B", "")], repeat=3)
                  for g in itertools.product((0, 2, IDLE), repeat=3)]
        for i, h in chunk(pick(chosen, 160 if not deep else 1600), size):
            yield f"via-{sus}:{i}", J(histories(h, sus), f"chosen dependencies {sus} {i}")
    for j in range(8 if not deep else 60):
        long = []
        for k in range(size // 2):
            ops = []
            for _ in range(5 + k % 4):
                x[0] = (x[0] * 1103515245 + 12345) % 2 ** 31
                ops.append(more[x[0] // 97 % len(more)])
            x[0] = (x[0] * 1103515245 + 12345) % 2 ** 31
            g = [(0, 0, 1, 2, 3, 0, 5, IDLE, 1)[(x[0] >> q) % 9] for q in range(1, len(ops))]
            long.append((list(SETUPS)[k % len(SETUPS)], spaced(ops, g)))
        yield f"long:{j}", J(histories(long, list(MODES)[j % len(MODES)]), f"long {j}")
    lower = [("offer", "A", ""), ("del", "A"), ("cycle", "A", ""), ("fail", "A", "")]
    upper = [("offer", "B", "A"), ("offer", "B", ""), ("del", "B"), ("cycle", "B", "A"), ("offer", "C", "AB"), ("cycle", "C", "B"), ("del", "C")]
    both = [(setup, (spaced(p, (g[0],)), [("wait", g[1])] * bool(g[1]) + spaced(q, (g[2],)))) for setup in ("chain", "reverse", "fresh") for p in itertools.product(lower, repeat=2) for q in itertools.product(upper, repeat=2) for g in itertools.product((0, 1, 2), repeat=3)]
    for sus in MODES:
        for i, h in chunk(pick(both, 160 if not deep else 1500), size):
            yield f"actors-{sus}:{i}", J(actors(h, sus), f"actors {sus} {i}")
    yield "one-kind", J(one_kind, "one kind")
    for name in RICH:
        for i, g in enumerate([(IDLE, IDLE, IDLE), (0, 0, IDLE), (1, IDLE, 2)] if not deep else [p for p in itertools.product((0, 1, 2, IDLE), repeat=3)]):
            yield f"rebuilt-{name}:{i}", J(rebuilt(name, g), f"prepared again {name} {g}", "spec")
    names = list(REAL)
    orders = [names, names[::-1], ["rf", "wf", "vf", "ft", "outer"]]
    steps = [(w, n) for n in ("vf", "rf", "wf") for w in ("offer", "delete", "again")]
    pairs = [(o, p, g) for o in orders for p in itertools.product(steps, repeat=2) for g in ((0, 0), (1, 0), (IDLE, 0), (IDLE, 1), (2, 3))]
    for i, (o, p, g) in enumerate(pick(pairs, 60 if not deep else 600)):
        yield f"real:{i}", J(real(o, p, g), f"real preparers {i}")
