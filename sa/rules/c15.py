"""C15  Cache is keyed by resourceVersion: prepare once per version, latest wins."""
import itertools

from ..values import *
from ..scen import *
from ..lib import to_abs
from ..rf import judged

EXPLANATION = (
    "The cache entry points are interpreted against a map model over exhaustively enumerated histories: every sequence of offers (three versions going back and forth, every preparation outcome), deletes "
    "(by name, by current, by stale and by never-offered version) and lookups up to the bound on one name, every shorter sequence over two names and two kinds, and histories over adversarial names, "
    "versions, prepared values (falsy, failed), specs and preparers (suspending, mutating their spec, with and without dependencies). After every prefix each operation's return value, the number of "
    "preparations it caused and all lookups must be the model's.")
RULES = ["once: offering the cached name and version returns the cached result without preparing",
         "prepares: offering any other version prepares exactly once, from the offered spec, and returns its outcome",
         "latest: lookups return the result of the most recently offered version, failed ones included",
         "deleted: delete by name (or by the cached version) removes the entry",
         "stale-delete: a delete naming another version changes nothing",
         "isolated: operations on one name or kind leave the others unchanged"]
FLOOR = {"quick": 40000, "thorough": 350000}

CACHE = "koreo.cache.prepare_and_cache"
DELETE = "koreo.cache.delete_from_cache"
DELETE_META = "koreo.cache.delete_resource_from_cache"
LOOKUP = "koreo.cache.get_resource_from_cache"
SYSTEM = "koreo.cache.get_resource_system_data_from_cache"
KINDS = list(PREPARERS)


class Model:
    """The reference map and one preparer that records what it does."""

    def __init__(self, s, later, outcome=None, subs=None, suspend=0, mutate=False, falsy=False):
        self.s, self.later = s, later
        self.entries = {}
        self.calls = []
        self.last = None
        self.outcome = outcome or (lambda name, version, n: "ok")
        self.subs, self.suspend, self.mutate, self.falsy = subs, suspend, mutate, falsy
        self.trace = []
        self.preparer = ABuiltin("preparer", lambda ip, a, k: ACoro(lambda: self.prepare(ip, a[0], a[1]), "preparer"))
        self.count = 0

    def prepare(self, ip, key, spec):
        s = self.s
        shape = s.show(spec)
        for _ in range(self.suspend):
            ip.loop.pause()
        self.count += 1
        v = ip.force(ip.dict_get(ip.force(spec), "v"))
        k = self.outcome(str(ip.force(key)), v, self.count)
        if self.mutate:
            ip.dict_set(ip.force(spec), "v", "mutated")
            ip.dict_set(ip.force(spec), "extra", AList())
        if k == "ok":
            made = [0, "", False, AList(), ADict(), (), AInst(OBJECT)][self.count % 7] if self.falsy else AInst(OBJECT, {"n": self.count})
            deps = [s.resource(*x) for x in self.subs] if self.subs else self.subs
            out = (made, AList(deps) if deps is not None else None)
        else:
            made = out = ip.call(s.cls[k], [], {"message": f"failed {self.count}"})
        self.calls.append((str(ip.force(key)), shape, made))
        return out

    def where(self):
        return " ; ".join(self.trace[-7:])

    def check(self, cond, rule, text):
        self.later.check(cond, rule, CACHE if rule in ("once", "prepares", "latest") else DELETE, lambda: f"{self.where()}: {text()}"[:460])

    def cls(self, kind):
        return self.s.get(PREPARERS[kind][1])

    def spec(self, name, version, extra):
        return {"v": version, "of": name, "deep": {"l": [1, {"x": version}]}, **extra}

    def offer(self, kind, name, version, **extra):
        s, ip = self.s, self.s.ip
        self.trace.append(f"offer {kind[:2]}:{name}@{version}")
        spec = to_abs(self.spec(name, version, extra))
        before, had = len(self.calls), self.entries.get((kind, name))
        sysd = to_abs({"s": version})
        r = s.call(CACHE, resource_class=self.cls(kind), preparer=self.preparer, metadata=to_abs({"name": name, "resourceVersion": version, "labels": {"a": "b"}, "uid": "u"}), spec=spec, _system_data=sysd)
        new = self.calls[before:]
        if had is not None and had[0] == version:
            self.check(not new, "once", lambda: f"prepared again: {new}")
            self.check(same_thing(ip, r, had[1]), "once", lambda: f"returns {s.show(r)}, cached is {s.show(had[1])}")
        else:
            self.check(len(new) == 1, "prepares", lambda: f"{len(new)} preparations")
            if len(new) == 1:
                key, shape, made = new[0]
                self.check(key == name and shape == s.show(to_abs(self.spec(name, version, extra))), "prepares", lambda: f"prepared {key} from {shape}")
                self.check(same_thing(ip, r, made), "prepares", lambda: f"returns {s.show(r)}, prepared {s.show(made)}")
                self.entries[kind, name] = (version, made, self.spec(name, version, extra), version)
        self.compare((kind, name))

    def delete(self, kind, name, version=None, meta=False):
        s = self.s
        self.trace.append(f"delete {kind[:2]}:{name}{'' if version is None else '@' + version}")
        before, had = len(self.calls), self.entries.get((kind, name))
        if meta:
            s.call(DELETE_META, resource_class=self.cls(kind), metadata=to_abs({"name": name, "resourceVersion": version or "1"}))
            version = None
        elif version is None:
            s.call(DELETE, resource_class=self.cls(kind), cache_key=name)
        else:
            s.call(DELETE, resource_class=self.cls(kind), cache_key=name, version=version)
        if had is not None and (version is None or version == had[0]):
            del self.entries[kind, name]
        self.check(len(self.calls) == before, "deleted", lambda: "delete prepares")
        self.compare((kind, name), "deleted" if had is None or (kind, name) not in self.entries else "stale-delete")

    def compare(self, touched, rule="latest"):
        s, ip = self.s, self.s.ip
        for key in self.keys:
            r = rule if key == touched else "isolated"
            kind, name = key
            got = ip.force(s.call(LOOKUP, resource_class=self.cls(kind), cache_key=name))
            have = self.entries.get(key)
            self.check(same_thing(ip, got, have[1] if have else None), r, lambda: f"lookup of {kind}:{name} gives {s.show(got)}, expected {s.show(have[1]) if have else None}")
            if key == touched:
                sd = ip.force(s.call(SYSTEM, resource_class=self.cls(kind), cache_key=name))
                if have is None:
                    self.check(sd is None, r, lambda: f"system data of {kind}:{name} {s.show(sd)}")
                else:
                    self.check(sd is not None and same_thing(ip, s.attr(sd, "resource"), have[1]) and ip.force(s.attr(sd, "resource_version")) == have[0] and s.show(s.attr(sd, "spec")) == s.show(to_abs(have[2]))
                               and s.show(s.attr(sd, "system_data")) == s.show(to_abs({"s": have[3]})), r, lambda: f"system data of {kind}:{name}: {s.show(sd)}, expected version {have[0]}")


def same_thing(ip, a, b):
    a, b = ip.force(a), ip.force(b)
    if isinstance(a, Heap) or isinstance(b, Heap):
        return a is b
    return type(a) is type(b) and a == b


OUTCOME_PATTERNS = {
    "ok": lambda n, v, c: "ok",
    "second-fails": lambda n, v, c: "PermFail" if v == "2" else "ok",
    "first-fails": lambda n, v, c: "Retry" if v == "1" else "ok",
    "all-fail": lambda n, v, c: ("PermFail", "Retry", "Skip", "DepSkip")[c % 4],
    "alternate": lambda n, v, c: "ok" if c % 2 else ("DepSkip", "PermFail", "Skip")[c % 3],
    "third-ok": lambda n, v, c: "ok" if v == "3" else "PermFail",
}
ONE = [("offer", "1"), ("offer", "2"), ("offer", "3"), ("delete", None), ("delete", "1"), ("delete", "2"), ("delete", "9")]


def run(m, kind, name, op):
    if op[0] == "offer":
        m.offer(kind, name, op[1])
    else:
        m.delete(kind, name, op[1])


def one_name(histories, pattern, **opts):
    def body(s, later):
        m = Model(s, later, outcome=OUTCOME_PATTERNS[pattern], **opts)
        for i, h in enumerate(histories):
            name, kind = f"n{i}", KINDS[i % len(KINDS)]
            m.keys = [(kind, name)]
            m.trace = []
            for op in h:
                run(m, kind, name, op)
    return body


TWO = [("a", "offer", "1"), ("a", "offer", "2"), ("a", "delete", None), ("b", "offer", "1"), ("b", "offer", "2"), ("b", "delete", None), ("a", "delete", "1"), ("b", "delete", "2")]


def two_names(histories, pattern, mode, **opts):
    """mode: two names of one kind, or one name in two kinds."""
    def body(s, later):
        m = Model(s, later, outcome=OUTCOME_PATTERNS[pattern], **opts)
        for i, h in enumerate(histories):
            if mode == "names":
                k = KINDS[i % len(KINDS)]
                who = {"a": (k, f"n{i}"), "b": (k, f"n{i}x")}
            else:
                who = {"a": (KINDS[i % len(KINDS)], f"n{i}"), "b": (KINDS[(i + 1 + i // 5 % 4) % len(KINDS)], f"n{i}")}
                if who["a"] == who["b"]:
                    continue
            m.keys = list(who.values())
            m.trace = []
            for n, what, v in h:
                run(m, *who[n], (what, v))
    return body


PAIRS = [("1", "2"), ("2", "1"), ("9", "10"), ("10", "9"), ("1", "01"), ("1", "1.0"), ("1", " 1"), ("a", "A"), ("12", "123"), ("123", "12"), ("9007199254740992", "9007199254740993"), ("0", "00"), ("0", "1"), ("-1", "1"), ("v1", "v2"), ("1e3", "1000"), ("abc", "abcd"), ("x" * 64, "x" * 63 + "y"), ("100000", "99999"),
         ("None", "1"), ("false", "true"), ("1", "\u0661"), ("2", "\u00b2")]


def versions(s, later):
    m = Model(s, later)
    for i, (a, b) in enumerate(PAIRS):
        for j, h in enumerate([(("offer", a), ("offer", b), ("offer", a), ("offer", a)), (("offer", a), ("delete", b), ("offer", a), ("delete", a), ("offer", b)), (("offer", a), ("offer", b), ("delete", a), ("delete", b)), (("offer", b), ("delete", None), ("offer", b), ("offer", a), ("delete", b), ("delete", a))]):
            m.keys = [("Workflow", f"ver-{i}-{j}")]
            m.trace = []
            for op in h:
                run(m, "Workflow", f"ver-{i}-{j}", op)


NAMES = ["a", "A", "a.b", "a-b", "a_b", "a b", "ab", "aa", "a.", "1", "01", "x" * 253, "caf\u00e9", "Workflow", "None", "true", "n:m", "n/m", "__CACHE"]


def name_space(s, later):
    """Every pair of similar names is kept apart."""
    m = Model(s, later, outcome=OUTCOME_PATTERNS["alternate"])
    m.keys = [("ValueFunction", n) for n in NAMES]
    for n in NAMES:
        m.offer("ValueFunction", n, "1")
    for n in NAMES[::2]:
        m.offer("ValueFunction", n, "2")
    for n in NAMES[::3]:
        m.delete("ValueFunction", n)
    for n in NAMES:
        m.offer("ValueFunction", n, "2")
    for n in NAMES[1::2]:
        m.delete("ValueFunction", n, "1")
    for n in NAMES[::-1]:
        m.delete("ValueFunction", n, meta=True)


def kinds(s, later):
    m = Model(s, later, outcome=OUTCOME_PATTERNS["second-fails"])
    m.keys = [(k, n) for k in KINDS for n in ("same", "other")]
    for v in ("1", "2", "1", "3"):
        for k in KINDS:
            m.offer(k, "same", v)
            m.offer(k, "same", v)
            m.offer(k, "other", v)
        for k in KINDS[::2]:
            m.delete(k, "same", v)
        for k in KINDS[1::2]:
            m.delete(k, "other", "9")


def specs(s, later):
    """Same version with another spec is not prepared; another version with the same spec is."""
    m = Model(s, later)
    m.keys = [("ResourceFunction", "rf"), ("ValueFunction", "vf")]
    for kind, name in m.keys:
        for v, extra in (("1", {}), ("1", {"new": 1}), ("1", {"v2": {"deep": [1]}}), ("2", {"new": 1}), ("2", {}), ("3", {}), ("1", {}), ("1", {"n": None})):
            m.offer(kind, name, v, **extra)
        m.delete(kind, name, "2")
        m.offer(kind, name, "1", more=1)
        m.delete(kind, name)
        m.offer(kind, name, "1", more=1)


def long_history(seed, n, **opts):
    """A long pseudo-random history over four names and all kinds."""
    def body(s, later):
        m = Model(s, later, outcome=lambda name, v, c: "ok" if (c * 7 + seed) % 3 else ("PermFail", "Retry")[c % 2], **opts)
        names = [f"h{i}" for i in range(4)]
        use = [KINDS[(seed + i) % len(KINDS)] for i in range(2)]
        m.keys = [(k, x) for k in use for x in names]
        x = seed * 7919 + 13
        for _ in range(n):
            x = (x * 1103515245 + 12345) % 2 ** 31
            k, nm, v = use[x // 7 % 2], names[x // 97 % 4], str(1 + x // 1009 % 3)
            w = x // 65537 % 10
            if w < 6:
                m.offer(k, nm, v)
            elif w < 7:
                m.delete(k, nm)
            elif w < 8:
                m.delete(k, nm, meta=True, version=v)
            else:
                m.delete(k, nm, v)
    return body


def real_kinds(s, later):
    """The real preparers: identity of the prepared object decides."""
    good = {"ValueFunction": {"return": {"a": 1}}, "ResourceFunction": rf_spec(), "ResourceTemplate": {"template": {"apiVersion": "v1", "kind": "K"}}, "Workflow": {"steps": [{"label": "aaa", "ref": {"kind": "ValueFunction", "name": "vf"}}]},
            "FunctionTest": {"functionRef": {"kind": "ValueFunction", "name": "vf"}, "testCases": [{"expectReturn": {"a": 1}}]}}
    ip = s.ip
    for kind, spec in good.items():
        for bad in ({}, {"nonsense": 1}, None):
            for history in (("g1", "g1", "b2", "b2", "g3"), ("b1", "b1", "g2", "g2", "b1", "g2"), ("g1", "b2", "g1", "g1")):
                name = f"real-{kind}-{bad}-{history[0]}{history[2]}".lower().replace("{", "").replace("}", "").replace("'", "").replace(":", "").replace(" ", "")
                last = None
                for step in history:
                    sp = spec if step[0] == "g" else bad
                    if sp is None:
                        sp = {"steps": "x"}
                    r = ip.force(s.cache(kind, name, sp, step[1]))
                    got = ip.force(s.call(LOOKUP, resource_class=s.get(PREPARERS[kind][1]), cache_key=name))
                    what = f"{kind} offered {history} at {step}"
                    later.check(got is r, "latest", CACHE, lambda: f"{what}: lookup gives {s.out(got)}, offer returned {s.out(r)}"[:400])
                    if last is not None and last[0] == step[1]:
                        later.check(r is last[1], "once", CACHE, lambda: f"{what}: another result for the same version")
                    else:
                        later.check(last is None or r is not last[1], "prepares", CACHE, lambda: f"{what}: the result of the earlier version is returned")
                        later.check((s.kind(r) == "value") == (step[0] == "g"), "latest", CACHE, lambda: f"{what}: {s.out(r)}"[:300])
                    last = (step[1], r)


def stale_delete_keeps_watch(s, later):
    """A stale delete leaves subscriptions (and so hot reload) alone."""
    ip = s.ip
    for subs in ([("ValueFunction", "dep1")], [("ValueFunction", "dep1"), ("Workflow", "dep2")]):
        for wait in (0, 1):
            m = Model(s, later, subs=subs)
            name = f"w{len(subs)}{wait}"
            m.keys = [("Workflow", name)]
            m.offer("Workflow", name, "1")
            m.offer("Workflow", name, "2")
            if wait:
                ip.loop.sleep(1)
            m.delete("Workflow", name, "1")
            have = {(ip.force(s.attr(r, "resource_type")).name, ip.force(s.attr(r, "name"))) for r in ip.listof(s.call("koreo.registry.get_subscriptions", s.resource("Workflow", name)))}
            later.check(have == set(subs), "stale-delete", DELETE, lambda: f"stale delete: subscriptions {have}, expected {subs}")
            n = m.count
            other = Model(s, later)
            other.keys = [("ValueFunction", "dep1")]
            other.entries = {}
            s.call(CACHE, resource_class=s.get(PREPARERS["ValueFunction"][1]), preparer=other.preparer, metadata=to_abs({"name": "dep1", "resourceVersion": f"{len(subs)}{wait}"}), spec=to_abs({"v": "1"}))
            ip.loop.sleep(1)
            later.check(m.count > n, "stale-delete", DELETE, lambda: "after a stale delete the resource is no longer prepared again when its dependency changes")


def chunk(items, n):
    for i in range(0, len(items), n):
        yield i, items[i:i + n]


def scenarios(chk, tier):
    J = lambda body, label, rule="latest": lambda rec: judged(rec, body, rule, label, construct=CACHE)
    deep = tier != "quick"
    n = 4 if not deep else 5
    hist = [h for h in itertools.product(ONE, repeat=n) if h[0][0] == "offer"]
    pats = list(OUTCOME_PATTERNS)
    for i, h in chunk(hist, 120):
        yield f"one:{i}", J(one_name(h, pats[(i // 120) % len(pats)]), f"one name {i}")
    for j, p in enumerate(pats):
        sub = hist[j::len(pats) if not deep else 4]
        for i, h in chunk(sub, 120):
            yield f"one-{p}:{i}", J(one_name(h, p), f"one name {p} {i}")
    variants = {"falsy": {"falsy": True}, "mutate": {"mutate": True}, "empty-subs": {"subs": []}, "subs": {"subs": [("ValueFunction", "dep")]}, "suspend": {"suspend": 2}, "suspend-subs": {"suspend": 1, "subs": [("Workflow", "dep1"), ("ValueFunction", "dep2")]}}
    short = [h for h in itertools.product(ONE, repeat=3) if h[0][0] == "offer"]
    for j, (v, o) in enumerate(variants.items()):
        sub = short if not deep else short + hist[j::11]
        size = 30 if "subs" in o else 100
        for i, h in chunk(sub, size):
            yield f"{v}:{i}", J(one_name(h, pats[(i // size) % 2 * 4], **o), f"{v} {i}")
    two = [h for h in itertools.product(TWO, repeat=3 if not deep else 4) if h[0][1] == "offer"]
    for mode in ("names", "kinds"):
        for i, h in chunk(two, 100):
            yield f"two-{mode}:{i}", J(two_names(h, pats[(i // 100) % len(pats)], mode), f"two {mode} {i}")
    for k in range(6 if not deep else 30):
        yield f"long:{k}", J(long_history(k, 60), f"long history {k}")
        yield f"long-subs:{k}", J(long_history(k + 50, 40, subs=[("FunctionTest", "dep")], suspend=k % 2), f"long history with dependencies {k}")
    yield "versions", J(versions, "versions")
    yield "names", J(name_space, "names")
    yield "kinds", J(kinds, "kinds")
    yield "specs", J(specs, "specs")
    yield "real", J(real_kinds, "real preparers")
    yield "watch", J(stale_delete_keeps_watch, "stale delete", "stale-delete")
