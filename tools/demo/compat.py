"""Lets demos run the real code on the sandbox's Python 3.12 (the project targets 3.13)."""
import asyncio
import os
import sys
import logging

sys.path.insert(0, os.path.join(os.getcwd(), "src"))
logging.disable(logging.CRITICAL)

if not hasattr(asyncio, "QueueShutDown"):
    class QueueShutDown(Exception):
        pass

    asyncio.QueueShutDown = QueueShutDown

    class Queue(asyncio.Queue):
        _is_shutdown = False

        def shutdown(self, immediate=False):
            self._is_shutdown = True
            if immediate:
                while not self.empty():
                    self._get()
                    if self._unfinished_tasks > 0:
                        self._unfinished_tasks -= 1
                if self._unfinished_tasks == 0:
                    self._finished.set()
            for w in list(self._getters):
                if not w.done():
                    w.set_result(None)
            for w in list(self._putters):
                if not w.done():
                    w.set_result(None)

        async def put(self, item):
            while self.full():
                if self._is_shutdown:
                    raise QueueShutDown
                putter = self._get_loop().create_future()
                self._putters.append(putter)
                try:
                    await putter
                except BaseException:
                    putter.cancel()
                    try:
                        self._putters.remove(putter)
                    except ValueError:
                        pass
                    raise
            return self.put_nowait(item)

        def put_nowait(self, item):
            if self._is_shutdown:
                raise QueueShutDown
            return super().put_nowait(item)

        async def get(self):
            while self.empty():
                if self._is_shutdown:
                    raise QueueShutDown
                getter = self._get_loop().create_future()
                self._getters.append(getter)
                try:
                    await getter
                except BaseException:
                    getter.cancel()
                    try:
                        self._getters.remove(getter)
                    except ValueError:
                        pass
                    raise
            return self.get_nowait()

        def get_nowait(self):
            if self.empty() and self._is_shutdown:
                raise QueueShutDown
            return super().get_nowait()

    asyncio.Queue = Queue
    asyncio.queues.Queue = Queue

if not issubclass(asyncio.LifoQueue, asyncio.Queue):
    class LifoQueue(asyncio.Queue):
        def _init(self, maxsize):
            self._queue = []

        def _put(self, item):
            self._queue.append(item)

        def _get(self):
            return self._queue.pop()

    asyncio.LifoQueue = LifoQueue

import copy  # noqa: E402

if not hasattr(copy, "replace"):
    copy.replace = lambda o, **changes: o._replace(**changes)

import koreo.cache  # noqa: E402

# CPython 3.12 mangles module-level `__CACHE` after the generic class in that module
for _n in ("_CachedResource__CACHE", "__CACHE"):
    if _n in vars(koreo.cache):
        for _m in ("_CachedResource__CACHE", "__CACHE", "_ResourceMetadata__CACHE"):
            vars(koreo.cache).setdefault(_m, vars(koreo.cache)[_n])
        break
for _n in list(vars(koreo.cache)):
    if _n.startswith("_CachedResource__"):
        vars(koreo.cache).setdefault(_n[len("_CachedResource"):], vars(koreo.cache)[_n])


# ---------------------------------------------------------------- in-memory API
import contextlib  # noqa: E402
import copy  # noqa: E402
import json  # noqa: E402


class Response:
    def __init__(self, data, status=200):
        self.data, self.status_code = data, status

    def json(self):
        return copy.deepcopy(self.data)


def merge(target, patch):
    if not isinstance(patch, dict):
        return patch
    if not isinstance(target, dict):
        target = {}
    for k, v in patch.items():
        if v is None:
            target.pop(k, None)
        else:
            target[k] = merge(target.get(k), v)
    return target


class Api:
    """kr8s-compatible in-memory server; `log` records (method, url, namespace, body)."""

    def __init__(self, fault=None, latency=None):
        self.store = {}
        self.log = []
        self.gets = []
        self.fault = fault
        self.latency = latency
        self.namespace = "api-default-ns"

    async def pause(self, op, name):
        if self.latency:
            await asyncio.sleep(self.latency(op, name) or 0)

    def put(self, endpoint, ns, name, obj):
        self.store[(endpoint, ns, name)] = copy.deepcopy(obj)

    async def async_get(self, kind, *names, namespace=None, **_):
        for n in names:
            self.gets.append((kind.endpoint, n, namespace))
            await self.pause("GET", n)
            if self.fault:
                self.fault("GET", n)
            o = self.store.get((kind.endpoint, namespace, n))
            if o is not None:
                yield kind(copy.deepcopy(o), api=self)

    async def lookup_kind(self, kind):
        return (kind, kind.split(".")[0].lower() + "s", True)

    @contextlib.asynccontextmanager
    async def call_api(self, method, version=None, url=None, namespace=None, data=None, headers=None, **_):
        body = json.loads(data) if data else None
        self.log.append((method, url, namespace, body))
        await self.pause(method, url)
        if self.fault:
            self.fault(method, url)
        if method == "POST":
            key = (url, namespace, body["metadata"]["name"])
            self.store[key] = copy.deepcopy(body)
            yield Response(body)
        elif method == "PATCH":
            endpoint, name = url.split("/", 1)
            key = (endpoint, namespace, name)
            self.store[key] = merge(self.store.get(key, {}), body)
            yield Response(self.store[key])
        elif method == "DELETE":
            endpoint, name = url.split("/", 1)
            self.store.pop((endpoint, namespace, name), None)
            yield Response({})
        else:
            yield Response({})


def methods(api):
    return [m for m, *_ in api.log]


def run(coro):
    return asyncio.run(coro)


OWNER = ("ns1", {"apiVersion": "v1", "kind": "Parent", "name": "parent", "uid": "owner-uid", "blockOwnerDeletion": True, "controller": False})


async def prepare_rf(spec, name="rf"):
    from koreo.resource_function.prepare import prepare_resource_function
    r = await prepare_resource_function(name, copy.deepcopy(spec))
    assert isinstance(r, tuple), f"prepare failed: {r}"
    return r[0]


async def prepare_vf(spec, name="vf"):
    from koreo.value_function.prepare import prepare_value_function
    r = await prepare_value_function(name, copy.deepcopy(spec))
    assert isinstance(r, tuple), f"prepare failed: {r}"
    return r[0]


async def cache(kind, name, spec, version="1"):
    from koreo.cache import prepare_and_cache
    import koreo.value_function.prepare as vp, koreo.value_function.structure as vs
    import koreo.resource_function.prepare as rp, koreo.resource_function.structure as rs
    import koreo.resource_template.prepare as tp, koreo.resource_template.structure as ts
    import koreo.workflow.prepare as wp, koreo.workflow.structure as ws
    import koreo.function_test.prepare as fp, koreo.function_test.structure as fs
    fn, cls = {
        "ValueFunction": (vp.prepare_value_function, vs.ValueFunction), "ResourceFunction": (rp.prepare_resource_function, rs.ResourceFunction),
        "ResourceTemplate": (tp.prepare_resource_template, ts.ResourceTemplate), "Workflow": (wp.prepare_workflow, ws.Workflow),
        "FunctionTest": (fp.prepare_function_test, fs.FunctionTest)}[kind]
    r = await prepare_and_cache(resource_class=cls, preparer=fn, metadata={"name": name, "resourceVersion": version}, spec=copy.deepcopy(spec))
    return r


async def reconcile_rf(fn, api, inputs=None, owner=OWNER):
    import celpy
    from koreo.resource_function.reconcile import reconcile_resource_function
    return await reconcile_resource_function(api=api, location="loc", function=fn, owner=owner, inputs=celpy.json_to_cel(inputs or {}))


async def reconcile_vf(fn, inputs=None, base=None):
    import celpy
    from koreo.value_function.reconcile import reconcile_value_function
    return await reconcile_value_function(location="loc", function=fn, inputs=celpy.json_to_cel(inputs or {}), value_base=base)


async def run_workflow(spec, api=None, trigger=None, name="wf"):
    import celpy
    from koreo.workflow.prepare import prepare_workflow
    from koreo.workflow.reconcile import reconcile_workflow
    r = await prepare_workflow(name, copy.deepcopy(spec))
    assert isinstance(r, tuple), f"prepare failed: {r}"
    return await reconcile_workflow(api=api or Api(), workflow_key="wk", owner=OWNER, trigger=celpy.json_to_cel(trigger or {}), workflow=r[0])


RF = {
    "apiConfig": {"apiVersion": "test.koreo.dev/v1", "kind": "Thing", "plural": "things", "name": "thing-1", "namespace": "ns1", "owned": False},
    "resource": {"spec": {"a": 1, "b": "two"}},
}


def rf(**over):
    spec = copy.deepcopy(RF)
    spec["apiConfig"].update(over.pop("api", {}))
    spec.update(over)
    if "resourceTemplateRef" in over:
        spec.pop("resource")
    return {k: v for k, v in spec.items() if v is not None}
