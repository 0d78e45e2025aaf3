"""Building blocks of the scenarios: how the analysed entry points are driven."""
import json

from .values import *
from .interp import clone
from .lib import (to_abs, json_to_cel, to_host, NotHost, deepcopy, API, RESPONSE, APIOBJECT, KR8S_SERVER_ERROR, KR8S_NOT_FOUND,
                  KR8S_CONN_CLOSED, KR8S_TIMEOUT, AAsyncIter)
from .engine import AnchorLost

OUTCOMES = ("Ok", "PermFail", "Retry", "Skip", "DepSkip")
SEVERITY = {"PermFail": 4, "Retry": 3, "Ok": 2, "Skip": 1, "DepSkip": 0}

PREPARERS = {
    "ValueFunction": ("koreo.value_function.prepare.prepare_value_function", "koreo.value_function.structure.ValueFunction"),
    "ResourceFunction": ("koreo.resource_function.prepare.prepare_resource_function", "koreo.resource_function.structure.ResourceFunction"),
    "ResourceTemplate": ("koreo.resource_template.prepare.prepare_resource_template", "koreo.resource_template.structure.ResourceTemplate"),
    "Workflow": ("koreo.workflow.prepare.prepare_workflow", "koreo.workflow.structure.Workflow"),
    "FunctionTest": ("koreo.function_test.prepare.prepare_function_test", "koreo.function_test.structure.FunctionTest"),
}


class PrepareFailed(Exception):
    pass


class Undecided(Exception):
    pass


class S:
    """One abstract path of a scenario."""

    def __init__(self, chk, ip):
        self.chk = chk
        self.ip = ip
        self.cls = {n: chk.get(f"koreo.result.{n}") for n in OUTCOMES}

    # -- calls
    def get(self, dotted):
        return self.chk.get(dotted)

    def call(self, target, *args, **kw):
        """Call (and await, if it is a coroutine) an object of the analysed program; must run inside `main`."""
        ip = self.ip
        f = self.get(target) if isinstance(target, str) else target
        r = ip.call(f, list(args), dict(kw))
        r = ip.force(r)
        if isinstance(r, ACoro) or isinstance(r, AFut):
            return ip.await_(r)
        return r

    def main(self, thunk, name="main"):
        t = self.ip.loop.run(ACoro(thunk, name), name)
        if t.cancelled:
            self.ip.throw(CANCELLED)
        if t.exc:
            raise t.exc
        return t.result

    def spawn(self, thunk, name="task"):
        return self.ip.loop.spawn(ACoro(thunk, name), name)

    # -- values
    def abs(self, x):
        return to_abs(x)

    def cel(self, x):
        return json_to_cel(self.ip, to_abs(x))

    def host(self, v):
        return to_host(self.ip, v)

    def kind(self, v):
        """Outcome class of an (unwrapped) outcome; 'value' for plain values."""
        v = self.ip.force(v)
        if isinstance(v, AInst):
            for n, c in self.cls.items():
                if v.cls.issub(c):
                    return n
        return "value"

    def attr(self, v, name, default=None):
        return self.ip.getattr_(self.ip.force(v), name, default)

    def out(self, v):
        """Host description of an outcome: (class, message, delay, value)."""
        k = self.kind(v)
        if k == "value":
            return ("Ok", None, None, self.show(v))
        if k == "Ok":
            return ("Ok!", None, None, self.show(self.attr(v, "data")))
        return (k, self.text(self.attr(v, "message")), self.attr(v, "delay"), None)

    def text(self, v):
        v = self.ip.force(v)
        return v if v is None or isinstance(v, str) else repr(v)

    def show(self, v):
        """Comparable host form of any abstract value (types kept)."""
        return freeze(self.ip, v)

    # -- preparing
    def prepare(self, kind, name, spec):
        """(prepared, watched) or raises PrepareFailed with the outcome."""
        r = self.prepare_raw(kind, name, spec)
        if self.kind(r) != "value":
            raise PrepareFailed(f"{kind}:{name} {self.out(r)}")
        if isinstance(r, tuple):
            return r
        raise PrepareFailed(f"{kind}:{name} {r!r}")

    def prepare_raw(self, kind, name, spec):
        return self.ip.force(self.call(self.preparer(kind), name, to_abs(spec) if isinstance(spec, (dict, list)) else spec))

    memoise = True

    def preparer(self, kind):
        """The prepare function; results that depend on nothing but the spec are analysed once and copied afterwards."""
        real = self.get(PREPARERS[kind][0])
        if not self.memoise or kind not in ("ValueFunction", "ResourceFunction", "ResourceTemplate"):
            return real

        def call(ip, args, kw):
            def run():
                try:
                    key = (kind, tuple(json.dumps(to_host(ip, a), sort_keys=False) for a in args), ip.set_order)
                except (NotHost, TypeError, ValueError):
                    key = None
                if kw or key is None or "overlayRef" in key[1][-1]:
                    return ip.await_(ip.call(real, args, kw))
                memo = self.chk.__dict__.setdefault("prep_memo", {})
                if key in memo:
                    return clone(memo[key], {})
                n, m = len(ip.decisions), len(ip.imprecise)
                r = ip.force(ip.await_(ip.call(real, args, kw)))
                if len(ip.decisions) == n and len(ip.imprecise) == m:
                    memo[key] = clone(r, {})
                return r
            return ACoro(run, f"prepare_{kind}")
        return ABuiltin(f"prepare_{kind}", call)

    def cache(self, kind, name, spec, version="1", **meta):
        fn, cls = PREPARERS[kind]
        md = {"name": name, "resourceVersion": version}
        md.update(meta)
        return self.call("koreo.cache.prepare_and_cache", resource_class=self.get(cls), preparer=self.preparer(kind),
                         metadata=to_abs(md), spec=to_abs(spec) if isinstance(spec, (dict, list)) else spec)

    def resource(self, kind, name):
        return self.ip.call(self.get("koreo.registry.Resource"), [], {"resource_type": self.get(PREPARERS[kind][1]), "name": name})

    # -- errors inside data
    def error_inside(self, v, depth=0):
        """An expression error object found anywhere inside a value (None if there is none)."""
        ip = self.ip
        v = ip.force(v)
        if depth > 40:
            return None
        if isinstance(v, AInst):
            if v.cls.issub(EXC["BaseException"]):
                return v
            return None
        if isinstance(v, ADict):
            for k, x in ip.dict_items(v):
                e = self.error_inside(k, depth + 1) or self.error_inside(x, depth + 1)
                if e is not None:
                    return e
        if isinstance(v, (AList, tuple)):
            for x in (v.items if isinstance(v, AList) else v):
                e = self.error_inside(x, depth + 1)
                if e is not None:
                    return e
        return None


def freeze(ip, v, depth=0):
    v = ip.force(v)
    if depth > 60:
        return "..."
    if isinstance(v, ADict):
        return ("map", tuple(sorted(((freeze(ip, k, depth + 1), freeze(ip, x, depth + 1)) for k, x in ip.dict_items(v)), key=lambda kv: repr(kv[0]))))
    if isinstance(v, AList):
        return ("list", tuple(freeze(ip, x, depth + 1) for x in v.items))
    if isinstance(v, tuple):
        return ("tuple", tuple(freeze(ip, x, depth + 1) for x in v))
    if isinstance(v, ASet):
        return ("set", tuple(sorted((freeze(ip, x, depth + 1) for x in v.e.values()), key=repr)))
    if isinstance(v, AInst):
        return (v.cls.name, tuple(sorted(((k, freeze(ip, x, depth + 1)) for k, x in v.attrs.items() if not k.startswith("__")), key=lambda kv: kv[0])))
    if isinstance(v, CBool):
        return ("bool", bool(v))
    if isinstance(v, bool):
        return ("bool", v)
    if isinstance(v, float):
        return ("float", repr(float(v)))
    if isinstance(v, int):
        return ("int", int(v))
    if isinstance(v, str):
        return ("str", str(v))
    if v is None:
        return ("null",)
    return ("?", repr(v))


def plain(ip, v, depth=0):
    """JSON-like host value (bool and int kept apart, CEL types dropped)."""
    v = ip.force(v)
    if isinstance(v, ADict):
        return {plain(ip, k): plain(ip, x) for k, x in ip.dict_items(v)}
    if isinstance(v, (AList, tuple)):
        return [plain(ip, x) for x in (v.items if isinstance(v, AList) else v)]
    if isinstance(v, CBool):
        return bool(v)
    if isinstance(v, (CInt, CUint)):
        return int(v)
    if isinstance(v, CDouble):
        return float(v)
    if isinstance(v, CStr):
        return str(v)
    if v is None or isinstance(v, (bool, int, float, str)):
        return v
    raise NotHost(repr(v))


def wire(ip, v):
    """The JSON document a value becomes when it is sent (json.dumps: bool-like CEL values are integers)."""
    v = ip.force(v)
    if isinstance(v, ADict):
        return {wire_key(ip, k): wire(ip, x) for k, x in ip.dict_items(v)}
    if isinstance(v, (AList, tuple)):
        return [wire(ip, x) for x in (v.items if isinstance(v, AList) else v)]
    if v is None or isinstance(v, bool):
        return v
    if isinstance(v, str):
        return str(v)
    if isinstance(v, int):
        return int(v)
    if isinstance(v, float):
        return float(v)
    if isinstance(v, Sym) and v.core.cls is not None and v.core.cls.issub(STR):
        return v
    raise NotHost(repr(v))


def wire_key(ip, k):
    k = ip.force(k)
    if isinstance(k, str):
        return str(k)
    if k is None:
        return "null"
    if isinstance(k, bool):
        return "true" if k else "false"
    if isinstance(k, (int, float)):
        return repr(int(k)) if isinstance(k, int) else repr(float(k))
    raise NotHost(repr(k))


def same(a, b):
    """Equality of JSON values with types (1, True and 1.0 differ)."""
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return type(a) is type(b) and a == b


def scenario(chk, fn):
    """Adapter: fn(S) -> outcome, run as the main coroutine of one path."""
    def run(ip):
        s = S(chk, ip)
        return s, s.main(lambda: fn(s))
    return run


# ------------------------------------------------------------------ in-memory cluster
def server_error(ip, code, msg="server error"):
    return ip.exc(KR8S_SERVER_ERROR, msg, status=msg, response=AInst(RESPONSE, {"status_code": code, "status": msg}))


def merge_patch(ip, target, patch):
    """RFC 7386"""
    patch = ip.force(patch)
    if not isinstance(patch, ADict):
        return deepcopy(ip, patch)
    target = ip.force(target) if target is not MISSING else None
    if not isinstance(target, ADict):
        target = ADict()
    for k, v in list(ip.dict_items(patch)):
        if ip.force(v) is None:
            if ip.dict_get(target, k) is not MISSING:
                ip.dict_del(target, k)
        else:
            ip.dict_set(target, k, merge_patch(ip, ip.dict_get(target, k), v))
    return target


class Cluster:
    """API server holding JSON objects; mutations are applied when the request completes."""

    def __init__(self, ip, fault=None, get=None, server_fields=True, after=None):
        self.ip = ip
        self.after = after
        self.store = {}
        self.fault = fault
        self.get_hook = get
        self.n = 0
        self.log = []
        self.api = AInst(API, {})
        self.server_fields = server_fields
        self.lookups = {}
        ip.hooks["api_fault"] = self.on_call
        ip.hooks["api_get"] = self.on_get
        ip.hooks["api_lookup"] = self.on_lookup

    def key(self, endpoint, ns, name):
        f = self.ip.force
        return (f(endpoint), f(ns), f(name))

    def put(self, endpoint, ns, name, obj):
        self.store[self.key(endpoint, ns, name)] = to_abs(obj) if isinstance(obj, dict) else obj

    def find(self, endpoint, ns, name):
        return self.store.get(self.key(endpoint, ns, name))

    def on_lookup(self, ip, kind):
        k = ip.force(kind)
        r = self.lookups.get(str(k).split(".")[0])
        if callable(r):
            return r()
        if r is None:
            return (k, str(k).split(".")[0].lower() + "s", True)
        return r

    def on_get(self, ip, api, kind, names, ns):
        if self.get_hook:
            r = self.get_hook(ip, kind, names, ns)
            if r is not NotImplemented:
                return r
        endpoint = ip.getattr_(kind, "endpoint") if isinstance(kind, AClass) else kind
        out = []
        for n in names:
            o = self.find(endpoint, ns, n)
            if o is not None:
                out.append(AInst(kind, {"_raw": deepcopy(ip, o), "_api": api, "__addr": n}))
        return out

    def on_call(self, ip, op, info):
        if self.fault:
            self.fault(ip, op, info)
        if info.get("payload") is not None:
            try:
                info["payload"] = to_abs(wire(ip, info["payload"]))
            except NotHost as e:
                ip.throw("TypeError", f"Object is not JSON serializable: {e}")
        if op == "create":
            raw = info["payload"]
            name = ip.getitem(ip.getitem(raw, "metadata"), "name")
            k = self.key(info["endpoint"], info["namespace"], name)
            if k in self.store:
                ip.throw(server_error(ip, 409, "already exists"))
            o = deepcopy(ip, raw)
            if self.server_fields:
                self.n += 1
                md = ip.getitem(o, "metadata")
                ip.dict_set(md, "uid", f"uid-{self.n}")
                ip.dict_set(md, "resourceVersion", str(self.n))
            self.store[k] = o
            info["obj"].attrs["_raw"] = deepcopy(ip, o)
        elif op == "patch":
            k = self.key(info["endpoint"], info["namespace"], info["name"])
            if k not in self.store:
                ip.throw(KR8S_NOT_FOUND, "not found")
            self.store[k] = merge_patch(ip, self.store[k], info["payload"])
            info["obj"].attrs["_raw"] = deepcopy(ip, self.store[k])
        elif op == "delete":
            k = self.key(info["endpoint"], info["namespace"], info["name"])
            if k not in self.store:
                ip.throw(KR8S_NOT_FOUND, "not found")
            del self.store[k]
        if self.after:
            self.after(ip, op, info)


def mutations(events):
    return [e for e in events if e.kind == "api" and e.data["op"] in ("create", "patch", "delete")]


def api_calls(events):
    return [e for e in events if e.kind == "api"]


OWNER = {"apiVersion": "v1", "kind": "Parent", "name": "parent", "uid": "owner-uid", "blockOwnerDeletion": True, "controller": False}


def owner(ns="ns1", ref=None):
    return (ns, to_abs(dict(ref or OWNER)))


def rf_spec(**over):
    """A ResourceFunction spec."""
    api = {"apiVersion": "test.koreo.dev/v1", "kind": "Thing", "plural": "things", "name": "thing-1", "namespace": "ns1", "owned": False}
    api.update(over.pop("api", {}))
    api = {k: v for k, v in api.items() if v is not ...}
    spec = {"apiConfig": api}
    if "resource" not in over and "resourceTemplateRef" not in over:
        spec["resource"] = {"spec": {"a": 1, "b": "two"}}
    spec.update(over)
    return {k: v for k, v in spec.items() if v is not ...}


def reconcile_rf(s, fn, cluster, inputs=None, own=None, location="loc"):
    r = s.call("koreo.resource_function.reconcile.reconcile_resource_function", api=cluster.api if isinstance(cluster, Cluster) else cluster,
               location=location, function=fn, owner=own if own is not None else owner(), inputs=s.cel(inputs or {}) if isinstance(inputs, (dict, type(None))) else inputs)
    r = s.ip.force(r)
    return s.attr(r, "outcome"), s.attr(r, "resource_id")
