"""C17  Subscription registry stays consistent, acyclic and delivers exactly."""
import itertools

from ..values import *
from ..scen import *
from ..lib import to_abs, QUEUE
from ..rf import judged

EXPLANATION = (
    "The registry's functions are interpreted against a reference model (a set of edges and per-resource queues) over exhaustively enumerated operation sequences: register, subscribe, subscribe-only-to, "
    "unsubscribe, notify, kill and deregister over three and four resources, from a range of starting graphs, repeated and redundant operations, refused subscriptions and bounded, full, killed and "
    "re-registered queues included. After every operation both views are compared with the model's edges, and every queue's content with the deliveries the model expects; waiting getters, putters and "
    "joiners must be released by deregistering.")
RULES = ["views: watchers and watched are exact inverses and are the expected edges",
         "acyclic: a subscription closing a cycle is refused; every other one is accepted",
         "unchanged: a refused subscription leaves the registry as it was",
         "delivered: a notification reaches every subscriber with a live queue exactly once and nobody else",
         "no-error: no other operation fails",
         "queue: registering twice returns the same queue; a deregistered resource gets a new, live one",
         "released: deregistering releases everything waiting on the queue"]
FLOOR = {"quick": 600000, "thorough": 5000000}
M = "koreo.registry."
NAMES = "ABCD"


class Q:
    """Expected state of one queue."""

    def __init__(self, obj, size=0):
        self.obj, self.size, self.items, self.live = obj, size, [], True


class World:
    def __init__(self, s, later, names, tag):
        self.s, self.later, self.names, self.tag = s, later, names, tag
        ip = s.ip
        self.cls2 = [s.get(PREPARERS[k][1]) for k in ("ValueFunction", "Workflow")]
        self.res = {n: ip.call(s.get(M + "Resource"), [], {"resource_type": self.cls2[i % 2], "name": f"{tag}{'x' if i < 2 else n}"}) for i, n in enumerate(names)}
        self.edges = set()
        self.queues = {}
        self.old = []
        self.trace = []
        self.time = 0

    def names_of(self, r):
        s, ip = self.s, self.s.ip
        k = (ip.force(s.attr(r, "resource_type")), ip.force(s.attr(r, "name")))
        for n, x in self.res.items():
            if ip.force(s.attr(x, "resource_type")) is k[0] and ip.force(s.attr(x, "name")) == k[1]:
                return n
        return "?"

    def check(self, cond, rule, fn, text):
        self.later.check(cond, rule, M + fn, lambda: f"{' '.join(self.trace)}: {text()}"[:420])

    # -- model
    def reaches(self, a, b):
        todo, seen = [a], set()
        while todo:
            x = todo.pop()
            if x == b:
                return True
            if x in seen:
                continue
            seen.add(x)
            todo += [r for (u, r) in self.edges if u == x]
        return False

    def note(self, n, t):
        """Expected deliveries of a notification of n."""
        for u, r in self.edges:
            if r == n and u in self.queues and self.queues[u].live:
                q = self.queues[u]
                if not q.size or len(q.items) < q.size:
                    q.items.append((n, t))

    # -- operations
    def call(self, fn, *args, **kw):
        """(value, exception class name)"""
        try:
            return self.s.call(M + fn, *args, **kw), None
        except AExc as e:
            return None, e.value.cls.name

    def act(self, op):
        what, n = op[0], op[1]
        r = self.res[n]
        self.trace.append(f"{what}({', '.join(map(str, op[1:]))})")
        if what == "register":
            size = op[2] if len(op) > 2 else 0
            had = self.queues.get(n)
            kw = {}
            if size:
                kw["queue"] = self.s.ip.call(QUEUE, [], {"maxsize": size})
            v, err = self.call("register", r, **kw)
            self.check(err is None, "no-error", "register", lambda: f"raises {err}")
            if err is None:
                v = self.s.ip.force(v)
                if had:
                    self.check(v is had.obj, "queue", "register", lambda: "another queue is returned")
                else:
                    self.check(not kw or v is kw["queue"], "queue", "register", lambda: "the given queue is not used")
                    self.check(isinstance(v, AInst) and not v.attrs["__shut"] and all(v is not q.obj for q in [*self.queues.values(), *self.old]), "queue", "register", lambda: "the queue is not a new, live one")
                    self.queues[n] = Q(v, size)
                    self.fresh = True
                    self.note(n, None)
        elif what == "subscribe":
            bad = self.reaches(op[2], n)
            v, err = self.call("subscribe", r, self.res[op[2]])
            self.refused("subscribe", bad, err)
            if not bad:
                self.edges.add((n, op[2]))
        elif what == "only":
            bad = any(self.reaches(x, n) for x in op[2])
            v, err = self.call("subscribe_only_to", r, AList([self.res[x] for x in op[2]]))
            self.refused("subscribe_only_to", bad, err)
            if not bad:
                self.edges = {(u, x) for u, x in self.edges if u != n} | {(n, x) for x in op[2]}
        elif what == "unsubscribe":
            v, err = self.call("unsubscribe", r, self.res[op[2]])
            if (n, op[2]) in self.edges:
                self.check(err is None, "no-error", "unsubscribe", lambda: f"raises {err}")
                self.edges.discard((n, op[2]))
            else:
                self.check(err in (None, "KeyError", "ValueError"), "no-error", "unsubscribe", lambda: f"raises {err}")
        elif what == "notify":
            self.time += 1
            v, err = self.call("notify_subscribers", r, self.time + 0.5)
            self.check(err is None, "no-error", "notify_subscribers", lambda: f"raises {err}")
            self.note(n, self.time + 0.5)
        elif what == "kill":
            v, err = self.call("kill_resource", r)
            self.check(err is None, "no-error", "kill_resource", lambda: f"raises {err}")
            q = self.queues.get(n)
            if q and q.live:
                q.live = False
                if not q.size or len(q.items) < q.size:
                    q.items.append("Kill")
        elif what == "deregister":
            self.time += 1
            v, err = self.call("deregister", r, self.time + 0.25)
            self.check(err is None, "no-error", "deregister", lambda: f"raises {err}")
            self.edges = {(u, x) for u, x in self.edges if u != n}
            q = self.queues.pop(n, None)
            if q:
                self.old.append(q)
                q.live, q.items = False, []
            self.note(n, self.time + 0.25)
        self.compare({"only": "subscribe_only_to", "notify": "notify_subscribers", "kill": "kill_resource"}.get(what, what))

    def refused(self, fn, bad, err):
        if bad:
            self.check(err is not None, "acyclic", fn, lambda: "the cycle is not refused")
            self.check(err in (None, "SubscriptionCycle"), "no-error", fn, lambda: f"raises {err}")
        else:
            self.check(err is None, "acyclic", fn, lambda: f"raises {err}")

    def view(self, fn, r):
        return {self.names_of(x) for x in self.s.ip.listof(self.s.call(M + fn, r))}

    def compare(self, fn):
        s, ip = self.s, self.s.ip
        watching = {n: self.view("get_subscriptions", r) for n, r in self.res.items()}
        watched = {n: self.view("get_subscribers", r) for n, r in self.res.items()}
        for n in self.names:
            self.check(watching[n] == {x for u, x in self.edges if u == n}, "views", fn, lambda: f"subscriptions of {n} are {sorted(watching[n])}, expected {sorted(x for u, x in self.edges if u == n)}")
            self.check(watched[n] == {u for u, x in self.edges if x == n}, "views", fn, lambda: f"subscribers of {n} are {sorted(watched[n])}, expected {sorted(u for u, x in self.edges if x == n)}")
        for n, q in self.queues.items():
            have = [self.item(i) for i in q.obj.attrs["__items"]]
            self.check(len(have) == len(q.items) and all(same_item(a, b) for a, b in zip(have, q.items)), "delivered", fn, lambda: f"queue of {n} holds {have}, expected {q.items}")
            if len(have) == len(q.items):
                q.items = have
            self.check(q.obj.attrs["__shut"] == (not q.live), "queue", fn, lambda: f"queue of {n} is {'shut down' if q.obj.attrs['__shut'] else 'live'}")
        for q in self.old:
            self.check(not q.obj.attrs["__items"] and q.obj.attrs["__shut"] and not q.obj.attrs["__unfinished"], "released", fn, lambda: f"a deregistered queue holds {len(q.obj.attrs['__items'])} items, {q.obj.attrs['__unfinished']} unfinished")

    def item(self, i):
        i = self.s.ip.force(i)
        if isinstance(i, AInst) and i.cls.name == "Kill" or isinstance(i, AClass) and i.name == "Kill":
            return "Kill"
        return self.names_of(self.s.attr(i, "resource")), self.s.ip.force(self.s.attr(i, "event_time"))

    def cleanup(self):
        """Leave the registry empty for the next history."""
        for n in self.names:
            self.act(("deregister", n))


def same_item(a, b):
    if a == "Kill" or b == "Kill":
        return a == b
    return a[0] == b[0] and (b[1] is None or a[1] == b[1])


SETUPS = {
    "empty": [],
    "queues": [("register", n) for n in "ABC"],
    "chain": [("register", "A"), ("register", "B"), ("register", "C"), ("only", "B", "A"), ("only", "C", "B")],
    "fan": [("register", "B"), ("register", "C"), ("only", "B", "A"), ("only", "C", "A")],
    "join": [("register", "A"), ("register", "C"), ("only", "C", "AB"), ("notify", "A")],
    "killed": [("register", "A"), ("register", "B"), ("register", "C"), ("only", "B", "A"), ("only", "C", "AB"), ("kill", "B")],
    "full": [("register", "A", 1), ("register", "B", 1), ("register", "C", 2), ("only", "B", "A"), ("only", "C", "AB"), ("notify", "A")],
    "again": [("register", "B"), ("only", "B", "A"), ("deregister", "B"), ("register", "B"), ("only", "B", "AC"), ("register", "A")],
}


def all_ops(names):
    out = []
    for n in names:
        others = [m for m in names if m != n]
        out += [("register", n), ("notify", n), ("kill", n), ("deregister", n)]
        out += [("subscribe", n, m) for m in names]
        out += [("unsubscribe", n, m) for m in others]
        for k in range(len(others) + 1):
            out += [("only", n, "".join(c)) for c in itertools.combinations(others, k)]
        out.append(("only", n, others[0] + n))
        out.append(("only", n, others[-1] * 2))
    return out


def sequences(items, names="ABC"):
    def body(s, later):
        for i, (setup, ops) in enumerate(items):
            w = World(s, later, names, f"q{i}-")
            for op in SETUPS[setup]:
                w.act(op)
            for op in ops:
                w.act(op)
            w.cleanup()
    return body


def waiting(s, later):
    """Everything waiting on the queue is released by deregistering."""
    ip = s.ip
    for i, (size, who, before, taken) in enumerate(itertools.product((0, 1, 2), (("get",), ("join",), ("get", "get", "get"), ("put", "put"), ("join", "get"), ("put", "join"), ("join", "join", "put")),
                                                                     ((), ("kill",), ("notify",), ("notify", "notify"), ("notify", "kill"), ("kill", "kill"), ("notify", "register"), ("deregister",)), (False, True))):
        w = World(s, later, "AB", f"w{i}-")
        w.trace = [f"maxsize {size}", f"waiting {who}"]
        w.act(("register", "B", size) if size else ("register", "B"))
        w.act(("only", "B", "A"))
        q = w.queues["B"].obj
        tasks = []
        if size:
            # Fill it, so that putters have to wait.
            for _ in range(size):
                w.act(("notify", "A"))
        elif "join" in who:
            w.act(("notify", "A"))

        def waiter(kind):
            def go():
                try:
                    r = s.call(s.attr(q, kind), *(["x"] if kind == "put" else []))
                    if kind == "get":
                        s.call(s.attr(q, "task_done"))
                    return r
                except AExc as e:
                    if e.value.cls.name != "QueueShutDown":
                        raise
                    return None
            return go
        for k in who:
            if k == "put" and not size:
                continue
            tasks.append((k, s.spawn(waiter(k), k)))
            if taken:
                ip.loop.pause()
        for b in before:
            w.trace.append(b)
            if b == "kill":
                w.call("kill_resource", w.res["B"])
            elif b == "notify":
                w.call("notify_subscribers", w.res["A"], 0.5)
            elif b == "register":
                w.call("register", w.res["B"])
            else:
                w.call("deregister", w.res["B"], 0.75)
        v, err = w.call("deregister", w.res["B"], 0.25)
        w.trace.append("deregister(B)")
        w.check(err is None, "no-error", "deregister", lambda: f"raises {err}")
        for _ in range(30):
            ip.loop.pause()
        for k, t in tasks:
            w.check(t.done, "released", "deregister", lambda: f"a waiting {k} is not released")
            w.check(not t.done or t.exc is None, "released", "deregister", lambda: f"a waiting {k} fails: {t.exc.value!r}")
        v, err = w.call("notify_subscribers", w.res["A"], 0.5)
        w.check(err is None, "no-error", "notify_subscribers", lambda: f"raises {err}")
        w.check(not q.attrs["__items"], "delivered", "notify_subscribers", lambda: "a deregistered subscriber is notified")
        v, err = w.call("deregister", w.res["A"], 0.25)


def shared(s, later):
    """Two resources on one queue: killing one does not make notifying the other fail."""
    ip = s.ip
    for i, (first, second) in enumerate(itertools.product(("kill", "deregister", "notify"), repeat=2)):
        w = World(s, later, "ABC", f"s{i}-")
        w.act(("register", "B"))
        q = w.queues["B"].obj
        v, err = w.call("register", w.res["C"], queue=q)
        w.trace.append("register(C, queue of B)")
        w.check(err is None and ip.force(v) is q, "queue", "register", lambda: "the given queue is not used")
        for n in "BC":
            w.call("subscribe", w.res[n], w.res["A"])
        for op in (first, second):
            n0 = len(q.attrs["__items"])
            live = not q.attrs["__shut"]
            v, err = w.call({"kill": "kill_resource", "notify": "notify_subscribers", "deregister": "deregister"}[op], w.res["A" if op == "notify" else "B"], *([0.5] if op != "kill" else []))
            w.trace.append(op)
            w.check(err is None, "no-error", "notify_subscribers" if op == "notify" else op, lambda: f"raises {err}")
            if op == "notify" and live:
                w.check(len(q.attrs["__items"]) - n0 == 2, "delivered", "notify_subscribers", lambda: f"{len(q.attrs['__items']) - n0} deliveries to two subscribers")
        v, err = w.call("notify_subscribers", w.res["A"], 0.5)
        w.check(err is None, "no-error", "notify_subscribers", lambda: f"raises {err}")
        for n in "ABC":
            w.call("deregister", w.res[n], 1.5)


def chunk(items, n):
    for i in range(0, len(items), n):
        yield i, items[i:i + n]


def scenarios(chk, tier):
    J = lambda body, label, rule="views", fn="subscribe_only_to": lambda rec: judged(rec, body, rule, label, construct=M + fn)
    deep = tier != "quick"
    x = [4321]

    def rnd(n):
        x[0] = (x[0] * 1103515245 + 12345) % 2 ** 31
        return x[0] // 97 % n

    ops = all_ops("ABC")
    for setup in SETUPS:
        two = [(setup, p) for p in itertools.product(ops, repeat=2)]
        if not deep:
            two = two[rnd(3)::3]
        for i, h in chunk(two, 120):
            yield f"two-{setup}:{i}", J(sequences(h), f"two {setup} {i}")
    for setup in SETUPS:
        n = 480 if not deep else 6000
        three = [(setup, [ops[rnd(len(ops))] for _ in range(3)]) for _ in range(n)]
        for i, h in chunk(three, 120):
            yield f"three-{setup}:{i}", J(sequences(h), f"three {setup} {i}")
    four = all_ops("ABCD")
    for j in range(24 if not deep else 200):
        long = [(list(SETUPS)[k % len(SETUPS)], [four[rnd(len(four))] for _ in range(12 + k % 20)]) for k in range(15)]
        yield f"long:{j}", J(sequences(long, "ABCD"), f"long {j}")
    yield "waiting", J(waiting, "waiting", "released", "deregister")
    yield "shared", J(shared, "shared queue", "delivered", "notify_subscribers")
