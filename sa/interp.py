"""Abstract interpreter for Python syntax trees with trace partitioning.

`explore(program, scenario)` enumerates abstract paths: every undecided test asks `choose`, and the
scenario is re-interpreted for every combination of decisions that has not been covered yet (bounded by
`limit`, which is reported).  Nothing of the analysed repository is imported or executed.
"""
import ast
import builtins
import os
import sys
import operator

from .values import *
from . import values as V
from .loop import Kill

sys.setrecursionlimit(200000)

MAX_DEPTH = 120
MAX_STEPS = 1200000
MAX_ITER = 2000


class Event:
    __slots__ = ("kind", "data", "stack", "task")

    def __init__(self, kind, data, stack, task):
        self.kind = kind
        self.data = data
        self.stack = stack
        self.task = task

    def __getattr__(self, k):
        try:
            return self.data[k]
        except KeyError:
            raise AttributeError(k)

    def where(self):
        for q, f, l in reversed(self.stack):
            if f:
                return f"{f}:{l} ({q})"
        return "?"

    def __repr__(self):
        return f"Event({self.kind}, {self.data}, at {self.where()})"


class FuncInfo:
    __slots__ = ("locals", "globals", "nonlocals", "is_gen", "is_async", "params")


_info_cache = {}


def func_info(node):
    r = _info_cache.get(id(node))
    if r is not None and r[0] is node:
        return r[1]
    info = FuncInfo()
    info.locals, info.globals, info.nonlocals = set(), set(), set()
    info.is_gen = False
    info.is_async = isinstance(node, ast.AsyncFunctionDef)
    a = node.args
    params = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
    if a.vararg:
        params.append(a.vararg.arg)
    if a.kwarg:
        params.append(a.kwarg.arg)
    info.params = params
    info.locals.update(params)

    def targets(t):
        if isinstance(t, ast.Name):
            info.locals.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                targets(e)
        elif isinstance(t, ast.Starred):
            targets(t.value)

    def walk(n, comp=False):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            if not comp:
                info.locals.add(n.name)
            for d in n.decorator_list:
                walk(d, comp)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for c in ast.iter_child_nodes(n):
                walk(c, True)
            return
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            info.is_gen = True
        if isinstance(n, ast.Global):
            info.globals.update(n.names)
        elif isinstance(n, ast.Nonlocal):
            info.nonlocals.update(n.names)
        elif isinstance(n, ast.NamedExpr):
            info.locals.add(n.target.id)
        elif not comp:
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                info.locals.add(n.id)
            elif isinstance(n, ast.ExceptHandler) and n.name:
                info.locals.add(n.name)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                for al in n.names:
                    info.locals.add((al.asname or al.name).split(".")[0])
            elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
                info.locals.add(n.name)
            elif isinstance(n, ast.MatchMapping) and n.rest:
                info.locals.add(n.rest)
        for c in ast.iter_child_nodes(n):
            walk(c, comp)

    body = node.body if isinstance(node.body, list) else [node.body]
    for s in body:
        walk(s)
    info.locals -= info.globals
    info.locals -= info.nonlocals
    _info_cache[id(node)] = (node, info)
    return info


class Env:
    __slots__ = ("vars", "parent", "kind", "info", "module", "gdict")

    def __init__(self, kind, parent, module, info=None):
        self.vars = {}
        self.parent = parent
        self.kind = kind
        self.info = info
        self.module = module


class Frame:
    __slots__ = ("func", "node", "file", "on_yield", "timeouts", "env", "task", "exc_handling")

    def __init__(self, func, file, env):
        self.func = func
        self.file = file
        self.node = None
        self.on_yield = None
        self.env = env


class Program:
    """Parsed source of the repository plus the once-interpreted module top levels."""

    def __init__(self, root):
        self.root = root
        self.src = os.path.join(root, "src")
        self.files = {}
        self.trees = {}
        for d, _, fs in os.walk(self.src):
            if "__pycache__" in d:
                continue
            for f in sorted(fs):
                if f.endswith(".py"):
                    p = os.path.join(d, f)
                    rel = os.path.relpath(p, self.src)[:-3].replace(os.sep, ".")
                    if rel.endswith(".__init__"):
                        rel = rel[: -len(".__init__")]
                    self.files[rel] = p
        self.init = None

    def tree(self, mod):
        t = self.trees.get(mod)
        if t is None:
            with open(self.files[mod], encoding="utf-8") as f:
                t = ast.parse(f.read(), self.files[mod])
            self.trees[mod] = t
        return t

    def relfile(self, mod):
        return os.path.relpath(self.files[mod], self.root) if mod in self.files else ""


class Interp:
    def __init__(self, program):
        from . import lib
        from .loop import Loop
        self.p = program
        self.lib = lib
        self.loop = Loop(self)
        self.modules = {}
        self.override = {}
        self.decisions = []
        self.prefix = ()
        self.events = []
        self.frames = []
        self.imprecise = []
        self.steps = 0
        self.task = None
        self.tasks = []
        self.eqmemo = {}
        self.fn_defaults = {}
        self.initing = False
        self.hooks = {}
        self.timeout_stack = []
        self.uid = 0
        self.clock = 0
        self.called = set()
        self.kr8s_versions = []
        self.recursion = None           # depth standing for Python's recursion limit
        self.lines = set()
        self.schedule = None
        self.set_order = 1
        self.keep = []
        self.singletons = {}
        self.cur_exc = []

    # ------------------------------------------------------------------ decisions / events
    def choose(self, n, tag=None):
        if n <= 1:
            return 0
        i = len(self.decisions)
        c = self.prefix[i] if i < len(self.prefix) else 0
        self.decisions.append((c, n, tag))
        return c

    def where(self):
        out = []
        for fr in self.frames:
            q = fr.func.full if fr.func is not None else "<module>"
            out.append((q, fr.file, getattr(fr.node, "lineno", 0)))
        return out

    def emit(self, kind, /, **data):
        e = Event(kind, data, self.where(), self.task.name if self.task else None)
        self.events.append(e)
        return e

    def unmodelled(self, what):
        w = self.where()
        loc = ""
        for q, f, l in reversed(w):
            if f:
                loc = f"{f}:{l}"
                break
        self.imprecise.append(f"{what} at {loc}")
        return Sym(f"?{what}")

    def fresh(self, name, cls=None, truth=None, op=None):
        self.uid += 1
        return Sym(f"{name}#{self.uid}", cls, truth, op)

    # ------------------------------------------------------------------ exceptions
    def exc(self, cls, *args, **attrs):
        if isinstance(cls, str):
            cls = EXC[cls]
        inst = AInst(cls, {"args": tuple(args)})
        inst.attrs.update(attrs)
        return inst

    def throw(self, cls, *args, **attrs):
        inst = cls if isinstance(cls, AInst) else self.exc(cls, *args, **attrs)
        e = AExc(inst)
        e.trace = self.where()
        raise e

    def host_exc(self, err):
        name = type(err).__name__
        k = EXC.get(name)
        if k is None:
            for b in type(err).__mro__:
                if b.__name__ in EXC:
                    k = EXC[b.__name__]
                    break
        self.throw(k or EXC["Exception"], str(err))

    # ------------------------------------------------------------------ basic queries
    def force(self, v):
        while isinstance(v, Lazy):
            if v.chosen is None:
                if v.base is not None:
                    b = v.base
                    bv = self.force(b)
                    v.chosen = b.chosen
                    v.value = MISSING if bv is MISSING else v.fn(self, bv)
                else:
                    i = self.choose(len(v.options), ("lazy", v.name))
                    v.chosen = i
                    val = v.options[i][1]
                    if callable(val) and not isinstance(val, Heap):
                        val = val(self)
                    v.value = val
                    h = self.hooks.get("lazy")
                    if h:
                        h(self, v)
            v = v.value
        if isinstance(v, Sym) and v.core.const is not MISSING:
            return v.core.const
        return v

    def class_of(self, v):
        if v is None:
            return NONE
        t = type(v)
        c = _HOSTCLS.get(t)
        if c is not None:
            return c
        if isinstance(v, (AList, ADict, ASet, AInst, AIter, AGen, ACoro, AFut, AGenCM, AAsyncIter)):
            return v.cls
        if isinstance(v, Sym):
            return v.core.cls
        if isinstance(v, AStr):
            return STR
        if isinstance(v, AClass):
            return v.attrs_meta if hasattr(v, "attrs_meta") else TYPE
        if isinstance(v, (AFunc, ABuiltin, ABound)):
            return FUNCTION
        if isinstance(v, AModule):
            return MODULE
        if isinstance(v, str):
            return STR
        if isinstance(v, int):
            return INT
        if isinstance(v, float):
            return FLOAT
        return OBJECT

    def isinstance_(self, v, cls):
        v = self.force(v)
        cls = self.force(cls)
        if isinstance(cls, tuple):
            for c in cls:
                if self.isinstance_(v, c):
                    return True
            return False
        if isinstance(cls, Union_):
            return any(self.isinstance_(v, NONE if c is None else c) for c in cls.members)
        if cls is None:
            return v is None
        if not isinstance(cls, AClass):
            if isinstance(cls, Sym):
                self.unmodelled(f"isinstance against {cls!r}")
                return bool(self.choose(2, ("isinstance", repr(cls))))
            return False
        if cls is OBJECT:
            return True
        if isinstance(v, AClass):
            return cls is TYPE or cls.name in ("Hashable", "Callable")
        if isinstance(v, Sym) and v.core.cls is None:
            c = v.core
            for n in c.isnot:
                if cls.issub(n):
                    return False
            if c.const is not MISSING:
                return self.isinstance_(c.const, cls)
            if c.truth is False and _always_truthy(cls):
                return False
            abc = _ABC.get(cls.name)
            if self.choose(2, ("isinstance", c.name, cls.name)) == 0:
                c.isnot.append(cls)
                return False
            if not abc:
                if cls is NONE:
                    c.const = None
                else:
                    c.cls = cls
            return True
        k = self.class_of(v)
        if k.issub(cls):
            return True
        abc = _ABC.get(cls.name)
        if abc and any(k.issub(x) for x in abc):
            return True
        if isinstance(v, Sym) and v.core.cls is not None and cls.issub(k) and v.core.cls not in EXACT:
            c = v.core
            for n in c.isnot:
                if cls.issub(n):
                    return False
            if self.choose(2, ("isinstance", c.name, cls.name)) == 0:
                c.isnot.append(cls)
                return False
            c.cls = cls
            return True
        return False

    def truth(self, v):
        v = self.force(v)
        if v is None or isinstance(v, (bool, int, float, str, bytes, tuple)):
            return bool(v)
        if isinstance(v, AList):
            return bool(v.items)
        if isinstance(v, ADict):
            if v.open and not v.e:
                return self.dict_len_nonzero(v)
            for k, x in list(v.e.values()):
                if self.present(v, k) is not MISSING:
                    return True
            return False
        if isinstance(v, ASet):
            return bool(v.e)
        if isinstance(v, AInst):
            fl = V._flags(v.cls)
            if v.cls.kind == "repo" or v.cls.lookup("__bool__") is not MISSING or v.cls.lookup("__len__") is not MISSING:
                b = v.cls.lookup("__bool__")
                if b is not MISSING:
                    return self.truth(self.call(ABound(b, v) if isinstance(b, AFunc) else b, [] if isinstance(b, AFunc) else [v], {}))
                b = v.cls.lookup("__len__")
                if b is not MISSING:
                    return self.truth(self.call(ABound(b, v) if isinstance(b, AFunc) else b, [] if isinstance(b, AFunc) else [v], {}))
            if "nt" in fl:
                return len(v.cls.fields) > 0
            return True
        if isinstance(v, Sym):
            c = v.core
            if c.truth is None:
                if c.cls is not None and _always_truthy(c.cls):
                    c.truth = True
                elif v.as_list is not None:
                    c.truth = bool(v.as_list.items)
                elif v.as_dict is not None and v.as_dict.e:
                    c.truth = self.truth(v.as_dict)
                else:
                    c.truth = not self.choose(2, ("truth", c.name))
            return c.truth
        if isinstance(v, AStr):
            for p in v.parts:
                if isinstance(p, str) and p:
                    return True
            for p in v.parts:
                if not isinstance(p, str):
                    if isinstance(p, Sym) and p.core.cls is not None and p.core.cls.issub(STR):
                        if self.truth(p):
                            return True
                    else:
                        return True
            return False
        return True

    def dict_len_nonzero(self, d):
        if not hasattr(d, "_nz"):
            d._nz = not self.choose(2, ("nonempty", id(d)))
        return d._nz

    # ------------------------------------------------------------------ equality
    def eq(self, a, b):
        a, b = self.force(a), self.force(b)
        if a is b:
            return not (isinstance(a, float) and a != a)
        if isinstance(a, (Sym, AStr)) or isinstance(b, (Sym, AStr)):
            if isinstance(a, AInst) and "enumval" in V._flags(a.cls):
                return self.eq(a.attrs["value"], b)
            if isinstance(b, AInst) and "enumval" in V._flags(b.cls):
                return self.eq(a, b.attrs["value"])
            return self.eq_sym(a, b)
        for x, y in ((a, b), (b, a)):
            if isinstance(x, AInst):
                m = x.cls.lookup("__eq__")
                if m is not MISSING and isinstance(m, AFunc):
                    r = self.call(ABound(m, x), [y], {})
                    if r is not NotImplemented:
                        return self.truth(r)
        if _celish(a) or _celish(b):
            return self.cel_eq(a, b)
        if isinstance(a, AInst) and "enumval" in V._flags(a.cls):
            return self.eq(a.attrs["value"], b)
        if isinstance(b, AInst) and "enumval" in V._flags(b.cls):
            return self.eq(a, b.attrs["value"])
        sa, sb = _seq(a), _seq(b)
        if sa is not None and sb is not None:
            ka, kb = self.class_of(a), self.class_of(b)
            if ka.issub(LIST) != kb.issub(LIST):
                return False
            if len(sa) != len(sb):
                return False
            return all(self.eq(x, y) for x, y in zip(sa, sb))
        if isinstance(a, ADict) and isinstance(b, ADict):
            return self.eq_dict(a, b)
        if isinstance(a, ASet) and isinstance(b, ASet):
            return set(a.e) == set(b.e)
        if _is_raw(a) and _is_raw(b):
            try:
                return bool(a == b)
            except Exception as err:  # pragma: no cover
                self.host_exc(err)
        if isinstance(a, AInst) and isinstance(b, AInst) and "dc" in V._flags(a.cls) and a.cls is b.cls and "noeq" not in V._flags(a.cls):
            return all(self.eq(a.attrs.get(f), b.attrs.get(f)) for f, _ in a.cls.fields)
        if isinstance(a, AInst) and isinstance(b, AInst) and a.cls.name == "CELEvalError" and b.cls.name == "CELEvalError":
            return self.eq(a.attrs.get("args"), b.attrs.get("args"))
        if isinstance(a, ABound) and isinstance(b, ABound):
            return a.func is b.func and a.self_ is b.self_
        if isinstance(a, AIter) and getattr(a, "view", None) in ("keys", "items"):
            if isinstance(b, AIter) and getattr(b, "view", None) in ("keys", "items"):
                b = ASet([self.force(x) for x in self.listof(b)])
            if isinstance(b, ASet):
                return {self.hk(x) for x in self.listof(a)} == set(b.e)
        if isinstance(b, AIter) and getattr(b, "view", None) in ("keys", "items") and isinstance(a, ASet):
            return self.eq(b, a)
        return False

    def cel_eq(self, a, b):
        """celtypes' numbers, lists and maps raise TypeError when compared with a value of an unrelated type."""
        ka, kb = self.class_of(a), self.class_of(b)
        for x, y in ((b, a), (a, b)) if _celish(b) and kb is not ka and kb.issub(ka) else ((a, b), (b, a)):
            if not _celish(x):
                if isinstance(x, int) and isinstance(y, int) or isinstance(x, float) and isinstance(y, (int, float)):
                    return x == y
                continue
            kx, ky = self.class_of(x), self.class_of(y)
            if isinstance(x, (AList, ADict)):
                lst = isinstance(x, AList)
                if not (isinstance(y, AList) and ky.issub(LIST) if lst else isinstance(y, ADict)):
                    self.throw("TypeError", f"no such overload: {kx.name} == {ky.name}")
                if lst:
                    if len(x.items) != len(y.items):
                        return False
                    pairs = list(zip(x.items, y.items))
                else:
                    keys = [k for k, _ in self.dict_items(x)]
                    if {hkey(k) for k in keys} != {hkey(k) for k, _ in self.dict_items(y)}:
                        return False
                    pairs = [(self.dict_get(x, k), self.dict_get(y, k)) for k in keys]
                bad, differ = None, False
                for u, v in pairs:
                    try:
                        differ = differ or not self.eq(u, v)
                    except AExc as e:
                        if not e.value.cls.issub(EXC["TypeError"]):
                            raise
                        bad = bad or e
                if differ:
                    return False
                if bad:
                    raise bad
                return True
            if not (ky.issub(kx) or kx.issub(ky)):
                self.throw("TypeError", f"no such overload: {kx.name} != {ky.name}")
            return bool(x == y)
        return False

    def eq_dict(self, a, b):
        ka = [k for k, _ in self.dict_items(a)]
        kb = [k for k, _ in self.dict_items(b)]
        ha, hb = {hkey(k) for k in ka}, {hkey(k) for k in kb}
        if ha != hb:
            return False
        return all(self.eq(self.dict_get(a, k), self.dict_get(b, k)) for k in ka)

    def eq_sym(self, a, b):
        if isinstance(a, AStr) and len(a.parts) == 1 and isinstance(a.parts[0], Sym) and _strlike(a.parts[0]):
            a = a.parts[0]
        if isinstance(b, AStr) and len(b.parts) == 1 and isinstance(b.parts[0], Sym) and _strlike(b.parts[0]):
            b = b.parts[0]
        if a is b:
            return True
        if isinstance(a, AStr) and isinstance(b, AStr):
            if len(a.parts) == len(b.parts) and all(
                (x == y) if isinstance(x, str) or isinstance(y, str) else (x is y or (isinstance(x, Sym) and isinstance(y, Sym) and x.core is y.core))
                for x, y in zip(a.parts, b.parts)
            ):
                return True
            return self.eq_fork(a, b)
        if isinstance(b, Sym) and not isinstance(a, Sym):
            a, b = b, a
        if isinstance(a, AStr):
            if isinstance(b, str):
                lits = [p for p in a.parts if isinstance(p, str)]
                rest = b
                for l in lits:
                    i = rest.find(l)
                    if i < 0:
                        return False
                    rest = rest[i + len(l):]
                return self.eq_fork(a, b)
            return False
        # a is Sym
        ca = a.core
        if isinstance(b, Sym):
            cb = b.core
            if ca is cb:
                return True
            if ca.const is not MISSING:
                return self.eq(ca.const, b)
            if cb.const is not MISSING:
                return self.eq(a, cb.const)
            if not _maybe_equal_cls(ca.cls, cb.cls):
                return False
            if ca.truth is not None and cb.truth is not None and ca.truth != cb.truth:
                return False
            if ca.distinct is not None and ca.distinct == cb.distinct:
                return False
            k = ("s", id(cb))
            if k in ca.eq:
                return ca.eq[k]
            # transitivity through known classes
            r = not self.choose(2, ("eq", ca.name, cb.name))
            ca.eq[k] = r
            cb.eq[("s", id(ca))] = r
            self.keep.append((ca, cb))
            return r
        if isinstance(b, AStr):
            if ca.cls is not None and not ca.cls.issub(STR):
                return False
            return self.eq_fork(a, b)
        if ca.const is not MISSING:
            return self.eq(ca.const, b)
        kb = self.class_of(b)
        if not _maybe_equal_cls(ca.cls, kb):
            return False
        if not _is_raw(b) or isinstance(b, tuple):
            if isinstance(b, (AInst, AClass, AFunc)) and ca.cls is not None and not ca.cls.issub(TUPLE):
                return False
            if isinstance(b, (AList, ADict)) and a.as_dict is None and a.as_list is None and ca.cls is not None and not (ca.cls.issub(LIST) or ca.cls.issub(DICT)):
                return False
            if isinstance(b, ADict) and a.as_dict is not None:
                return self.eq_dict(a.as_dict, b)
            if isinstance(b, AList) and a.as_list is not None:
                return self.eq(a.as_list, b)
            return self.eq_fork(a, b)
        if ca.truth is not None and bool(b) != ca.truth:
            return False
        if any(kb.issub(n) for n in ca.isnot):
            return False
        k = ("c", type(b).__name__, b)
        if k in ca.eq:
            return ca.eq[k]
        if ca.eq.get(("excl", None)):
            return False
        if ca.distinct is not None:
            return False
        r = self.choose(2, ("eq", ca.name, b)) == 1
        ca.eq[k] = r
        if r:
            ca.const = _coerce_const(b, ca.cls)
        return r

    def eq_fork(self, a, b):
        k = (id(a), id(b)) if not _is_raw(b) else (id(a), "c", b)
        if k not in self.eqmemo:
            self.eqmemo[k] = not self.choose(2, ("eq", repr(a), repr(b)))
            self.keep.append((a, b))
        return self.eqmemo[k]

    # ------------------------------------------------------------------ dict primitives
    def note_write(self, obj, how, **kw):
        if obj.watch is not None:
            self.emit("mutate", obj=obj, label=obj.watch, how=how, **kw)
        h = self.hooks.get("write")
        if h:
            h(self, obj, how, kw)

    def hk(self, k):
        k = self.force(k)
        try:
            if isinstance(k, (tuple,)):
                k = tuple(self.deepforce(x) for x in k)
            elif isinstance(k, AInst):
                for f in list(k.attrs):
                    if isinstance(k.attrs[f], Lazy):
                        k.attrs[f] = self.force(k.attrs[f])
                if k.cls.kind == "repo" and "nt" not in V._flags(k.cls) and isinstance(k.cls.lookup("__hash__"), AFunc):
                    h = self.call(ABound(k.cls.lookup("__hash__"), k), [], {})
                    return ("h", hkey(h))
            return hkey(k)
        except TypeError as e:
            self.throw("TypeError", str(e))

    def deepforce(self, x):
        x = self.force(x)
        return tuple(self.deepforce(y) for y in x) if isinstance(x, tuple) else x

    def present(self, d, key):
        """Value stored under key, or MISSING (forces a Lazy that may be absent)."""
        h = self.hk(key)
        ent = d.e.get(h)
        if ent is None:
            if d.open and h not in d.absent:
                v = d.open(self, d, self.force(key), h)
                if v is MISSING:
                    d.absent.add(h)
                    return MISSING
                d.e[h] = [key, v]
                if hasattr(d, "_nz") and not d._nz:
                    raise Abort("contradiction: empty dict has key")
                return self.present(d, key)
            return MISSING
        v = ent[1]
        if isinstance(v, Lazy):
            if v.chosen is None and any(o[1] is MISSING for o in v.options):
                self.force(v)
            if v.chosen is not None:
                w = v.value
                if w is MISSING:
                    del d.e[h]
                    d.absent.add(h)
                    return MISSING
        return v

    def dict_get(self, d, key, default=MISSING):
        v = self.present(d, key)
        return default if v is MISSING else v

    def dict_set(self, d, key, value):
        key = self.force(key)
        h = self.hk(key)
        self.note_write(d, "set", key=key, value=value)
        if h in d.e:
            if self.present(d, key) is not MISSING:
                d.e[h][1] = value
                return
        d.absent.discard(h)
        d.e[h] = [key, value]

    def dict_del(self, d, key):
        if self.present(d, key) is MISSING:
            return False
        h = self.hk(key)
        self.note_write(d, "del", key=key)
        del d.e[h]
        d.absent.add(h)
        return True

    def dict_items(self, d):
        """Host list of (key, value) currently present."""
        if d.open and d.extra is None:
            d.extra = []
            hook = getattr(d, "enum", None)
            if hook:
                for k in hook(self, d):
                    self.present(d, k)
        out = []
        for h in list(d.e):
            k = d.e[h][0]
            v = self.present(d, k)
            if v is not MISSING:
                out.append((k, v))
        return out

    # ------------------------------------------------------------------ iteration
    def sym_list(self, s):
        if s.as_list is None:
            c = s.core
            if c.length is None:
                opts = list(range(c.minlen, c.maxlen + 1))
                if c.truth is True:
                    opts = [o for o in opts if o > 0]
                elif c.truth is False:
                    opts = [0]
                # prefer one element first
                opts.sort(key=lambda n: (n != 1, n))
                c.length = opts[self.choose(len(opts), ("len", c.name))]
                c.truth = c.length > 0
            mk = c.memo.get("elem")
            s.as_list = AList([mk(self, s, i) if mk else self.memo_sym(s, ("item", i), f"{c.name}[{i}]") for i in range(c.length)],
                              c.cls if c.cls is not None and c.cls.issub(LIST) else LIST)
            s.as_list.watch = s.watch
        return s.as_list

    def sym_dict(self, s):
        if s.as_dict is None:
            c = s.core

            def opener(ip, d, key, h):
                if c.memo.get(("present", h)) is None:
                    mk = c.memo.get("key")
                    if mk is not None:
                        c.memo[("present", h)] = mk(ip, s, key)
                    elif ip.choose(2, ("key", c.name, repr(key))):
                        c.memo[("present", h)] = MISSING
                    else:
                        c.memo[("present", h)] = ip.memo_sym(s, ("key", h), f"{c.name}.{key if isinstance(key, str) else repr(key)}")
                return c.memo[("present", h)]

            s.as_dict = ADict(cls=c.cls if c.cls is not None and c.cls.issub(DICT) else DICT, open=opener)
            s.as_dict.watch = s.watch
        return s.as_dict

    def memo_sym(self, s, key, name, cls=None, truth=None):
        m = s.core.memo
        if key not in m:
            m[key] = Sym(name, cls, truth, op=(key, s))
        return m[key]

    def iter_values(self, v):
        """Host generator over the elements of an abstract iterable."""
        v = self.force(v)
        if isinstance(v, tuple):
            yield from v
        elif isinstance(v, AList):
            i = 0
            while i < len(v.items):
                if i > MAX_ITER:
                    raise Abort("iteration bound")
                yield v.items[i]
                i += 1
        elif isinstance(v, ADict):
            items = self.dict_items(v)
            n = len(v.e)
            for k, _ in items:
                if len(v.e) != n:
                    self.throw("RuntimeError", "dictionary changed size during iteration")
                yield k
        elif isinstance(v, ASet):
            ks = list(v.e.values())
            if self.set_order < 0:
                ks.reverse()
            if len(ks) > 1:
                self.hook("set_iter", v)
            n = len(v.e)
            for k in ks:
                if len(v.e) != n:
                    self.throw("RuntimeError", "Set changed size during iteration")
                yield k
        elif isinstance(v, AIter):
            yield from v.gen
        elif isinstance(v, AGen):
            while (r := self.gen_next(v)) is not None:
                yield r[0]
        elif isinstance(v, str):
            for ch in v:
                yield (CStr(ch) if isinstance(v, CStr) else ch)
        elif isinstance(v, bytes):
            yield from v
        elif isinstance(v, AInst):
            m = v.cls.lookup("__iter__")
            if m is not MISSING:
                it = self.call(ABound(m, v) if isinstance(m, AFunc) else m, [] if isinstance(m, AFunc) else [v], {})
                if it is v:
                    nx = v.cls.lookup("__next__")
                    while True:
                        try:
                            x = self.call(ABound(nx, v), [], {})
                        except AExc as e:
                            if e.value.cls.issub(EXC["StopIteration"]):
                                return
                            raise
                        yield x
                else:
                    yield from self.iter_values(it)
                return
            if v.cls.fields is not None and "nt" in V._flags(v.cls):
                for f, _ in v.cls.fields:
                    yield v.attrs[f]
                return
            self.throw("TypeError", f"'{v.cls.name}' object is not iterable")
        elif isinstance(v, Sym):
            k = v.core.cls
            if k is not None and k.issub(DICT):
                yield from self.iter_values(self.sym_dict(v))
            elif k is not None and (k.issub(INT) or k.issub(FLOAT) or k is NONE or k.issub(BOOL)):
                self.throw("TypeError", f"'{k.name}' object is not iterable")
            elif k is not None and k.issub(STR):
                yield self.memo_sym(v, ("ch", 0), f"{v.name}[0]", STR, True)
            else:
                yield from self.iter_values(self.sym_list(v))
        elif isinstance(v, AStr):
            yield self.fresh("char", STR, True)
        elif isinstance(v, AClass) and v.kind == "repo" and "enum" in V._flags(v):
            for x in v.ns.get("__members__", []):
                yield x
        elif isinstance(v, Lazy):
            yield from self.iter_values(self.force(v))
        elif v is None or isinstance(v, (int, float)):
            self.throw("TypeError", f"'{self.class_of(v).name}' object is not iterable")
        elif isinstance(v, AAsyncIter):
            yield from v.fn(self)
        else:
            self.throw("TypeError", f"'{self.class_of(v).name}' object is not iterable")

    def listof(self, v):
        out = []
        for x in self.iter_values(v):
            out.append(x)
            if len(out) > MAX_ITER * 5:
                raise Abort("iteration bound")
        return out

    def gen_next(self, g, sent=None, inject=None):
        """The next value of a generator as a 1-tuple, or None at its end."""
        if g.done:
            if inject is not None:
                raise inject
            return None
        if g.worker is None:
            from .loop import GenWorker
            g.worker = GenWorker(self, g)
        if g.running:
            self.throw("ValueError", "generator already executing")
        g.running = True
        try:
            r = g.worker.resume(sent, inject)
        except BaseException as e:
            g.done = True
            if isinstance(e, AExc) and e.value.cls.issub(EXC["StopIteration"]):
                self.throw("RuntimeError", "generator raised StopIteration")
            raise
        finally:
            g.running = False
        if r is None:
            g.done = True
        else:
            g.count += 1
            if g.count > MAX_ITER:
                raise Abort("generator bound")
        return r

    def gen_close(self, g):
        if g.done or g.worker is None:
            g.done = True
            return None
        try:
            self.gen_next(g, None, AExc(self.exc("GeneratorExit")))
        except AExc as e:
            if not e.value.cls.issub(EXC["GeneratorExit"]):
                raise
        g.done = True

    def hook(self, name, *a):
        h = self.hooks.get(name)
        if h:
            return h(self, *a)

    # ------------------------------------------------------------------ attributes
    def getattr_(self, obj, name, default=MISSING):
        obj = self.force(obj)
        r = self._getattr(obj, name)
        if r is MISSING:
            if self.lib.host_has(self, obj, name):
                return self.unmodelled(f"attribute {name} of {self.class_of(obj).name}")
            if default is not MISSING:
                return default
            self.throw("AttributeError", f"'{self.class_of(obj).name if not isinstance(obj, AModule) else obj.name}' object has no attribute '{name}'", name=name, obj=obj)
        return r

    def _getattr(self, obj, name):
        if isinstance(obj, AModule):
            if obj.ext:
                return self.lib.ext_attr(self, obj.name, name)
            if name in obj.globals:
                return obj.globals[name]
            sub = f"{obj.name}.{name}"
            if sub in self.p.files:
                return self.load_module(sub)
            if name == "__name__":
                return obj.name
            return MISSING
        if isinstance(obj, AInst):
            if name in obj.attrs:
                a = obj.cls.lookup(name)
                if (not isinstance(a, AProperty) or a.cached) and not (isinstance(a, AInst) and isinstance(a.cls.lookup("__set__"), AFunc)):
                    return obj.attrs[name]
            a = obj.cls.lookup(name)
            if a is not MISSING:
                if isinstance(a, AProperty):
                    r = self.call(a.fget, [obj], {})
                    if a.cached:
                        obj.attrs[name] = r
                    return r
                if isinstance(a, AInst) and isinstance(a.cls.lookup("__get__"), AFunc):
                    return self.call(ABound(a.cls.lookup("__get__"), a), [obj, obj.cls], {})
                if isinstance(a, AFunc):
                    return ABound(a, obj)
                if isinstance(a, ABuiltin):
                    return ABound(a, obj)
                if isinstance(a, AStatic):
                    return a.f
                if isinstance(a, AClassMethod):
                    return ABound(a.f, obj.cls)
                return a
            if name == "__class__":
                return obj.cls
            if name == "__dict__":
                return ADict(dict(obj.attrs))
            r = self.lib.inst_attr(self, obj, name)
            if r is not MISSING:
                return r
            g = obj.cls.lookup("__getattr__")
            if isinstance(g, AFunc):
                return self.call(ABound(g, obj), [name], {})
            return MISSING
        if isinstance(obj, AClass):
            a = obj.lookup(name)
            if a is not MISSING:
                if isinstance(a, AStatic):
                    return a.f
                if isinstance(a, AClassMethod):
                    return ABound(a.f, obj)
                return a
            return self.lib.class_attr(self, obj, name)
        if isinstance(obj, Sym):
            if name in obj.attrs:
                return obj.attrs[name]
            return self.lib.sym_attr(self, obj, name)
        if isinstance(obj, (AFunc, ABuiltin)):
            if name in obj.attrs:
                return obj.attrs[name]
            if name in ("__name__", "__qualname__"):
                return obj.name
            if name == "__doc__":
                return None
            if name == "__module__":
                return getattr(obj, "module", "")
            return MISSING
        if isinstance(obj, ABound):
            if name == "__self__":
                return obj.self_
            if name == "__func__":
                return obj.func
            return self._getattr(obj.func, name)
        return self.lib.value_attr(self, obj, name)

    def setattr_(self, obj, name, value):
        obj = self.force(obj)
        if isinstance(obj, AInst):
            a = obj.cls.lookup(name)
            if isinstance(a, AInst) and isinstance(a.cls.lookup("__set__"), AFunc):
                self.call(ABound(a.cls.lookup("__set__"), a), [obj, value], {})
                return
            if isinstance(a, AProperty) and not a.cached:
                if a.fset is None:
                    self.throw("AttributeError", f"can't set attribute {name}")
                self.call(a.fset, [obj, value], {})
                return
            fl = V._flags(obj.cls)
            if "frozen" in fl and "nt" not in fl:
                self.throw(V.FROZEN, f"cannot assign to field '{name}'")
            if "nt" in fl and (name in [f for f, _ in obj.cls.fields]) or "frozen" in fl:
                self.throw("AttributeError", "can't set attribute")
            s = obj.cls.lookup("__setattr__")
            if isinstance(s, AFunc):
                self.call(ABound(s, obj), [name, value], {})
                return
            self.note_write(obj, "setattr", key=name, value=value)
            obj.attrs[name] = value
        elif isinstance(obj, AModule):
            obj.globals[name] = value
        elif isinstance(obj, AClass):
            if not self.initing:
                self.emit("class_write", cls=obj, name=name, value=value)
            if not hasattr(self, "class_overlay"):
                self.class_overlay = []
            self.class_overlay.append((obj, name, obj.ns.get(name, MISSING)))
            obj.ns[name] = value
        elif isinstance(obj, (AFunc, ABuiltin)):
            obj.attrs[name] = value
        elif isinstance(obj, (Sym, AFut)):
            self.note_write(obj, "setattr", key=name, value=value)
            obj.attrs[name] = value
        else:
            self.throw("AttributeError", f"'{self.class_of(obj).name}' object has no attribute '{name}'")

    # ------------------------------------------------------------------ subscripts
    def getitem(self, obj, idx):
        obj = self.force(obj)
        if isinstance(obj, (AClass,)):
            m = obj.lookup("__class_getitem__")
            if isinstance(m, AClassMethod) and isinstance(m.f, AFunc):
                return self.call(ABound(m.f, obj), [idx], {})
            if "enum" in V._flags(obj):
                return self.getattr_(obj, self.force(idx))
            return obj
        if isinstance(obj, Union_) or isinstance(obj, ABuiltin) and obj.name.startswith("typing."):
            return obj
        if isinstance(obj, slice):
            return obj
        if not isinstance(idx, slice):
            idx = self.force(idx)
        if isinstance(obj, Sym):
            k = obj.core.cls
            if k is not None and k.issub(DICT):
                obj = self.sym_dict(obj)
            elif k is not None and (k.issub(LIST) or k.issub(TUPLE)):
                if isinstance(idx, (int, slice)):
                    obj = self.sym_list(obj)
                else:
                    return self.memo_sym(obj, ("idx", repr(idx)), f"{obj.name}[{idx!r}]")
            elif k is not None and k.issub(STR):
                return self.memo_sym(obj, ("sub", repr(idx)), f"{obj.name}[{idx!r}]", STR)
            elif k is not None and k is not OBJECT and k.kind != "repo" and not k.module:
                self.throw("TypeError", f"'{k.name}' object is not subscriptable")
            elif obj.as_dict is not None or isinstance(idx, str):
                obj = self.sym_dict(obj)
            elif obj.as_list is not None and isinstance(idx, int):
                obj = obj.as_list
            else:
                return self.memo_sym(obj, ("idx", repr(idx)), f"{obj.name}[{idx!r}]")
        if isinstance(obj, ADict):
            if obj.cls is C_MAP and not isinstance(idx, (Sym, AStr, str, int)):
                self.throw("TypeError", f"unsupported key type: {self.class_of(idx).name}")
            v = self.dict_get(obj, idx)
            if v is MISSING:
                if obj.default_factory is not None:
                    v = self.call(obj.default_factory, [], {})
                    self.dict_set(obj, idx, v)
                    return v
                m = obj.cls.lookup("__missing__")
                if isinstance(m, AFunc):
                    return self.call(ABound(m, obj), [idx], {})
                self.throw("KeyError", idx)
            return v
        seq = _seq(obj)
        if seq is None and isinstance(obj, str):
            seq = obj
        if seq is None and isinstance(obj, bytes):
            seq = obj
        if seq is not None:
            if isinstance(idx, slice):
                lo, hi, st = (self.force(x) for x in (idx.start, idx.stop, idx.step))
                if any(isinstance(x, (Sym, AStr)) for x in (lo, hi, st)):
                    return self.fresh("slice", self.class_of(obj))
                r = seq[slice(lo, hi, st)]
                if isinstance(obj, AList):
                    return AList(r, LIST)
                return tuple(r) if isinstance(obj, (tuple, AInst)) else r
            if isinstance(idx, Sym):
                if len(seq) == 0:
                    self.throw("IndexError", "index out of range")
                if idx.core.cls is not None and not idx.core.cls.issub(INT):
                    self.throw("TypeError", "indices must be integers")
                i = self.choose(len(seq), ("index", idx.name))
                return seq[i]
            if isinstance(idx, bool) or not isinstance(idx, int):
                if not isinstance(idx, bool):
                    self.throw("TypeError", f"{self.class_of(obj).name} indices must be integers or slices, not {self.class_of(idx).name}")
            try:
                return seq[idx]
            except IndexError:
                self.throw("IndexError", f"{self.class_of(obj).name} index out of range")
        if isinstance(obj, AStr):
            return self.fresh("substr", STR)
        if isinstance(obj, AInst):
            m = obj.cls.lookup("__getitem__")
            if m is not MISSING:
                return self.call(ABound(m, obj) if isinstance(m, AFunc) else m, [idx] if isinstance(m, AFunc) else [obj, idx], {})
        if isinstance(obj, ABuiltin) or isinstance(obj, AFunc):
            return obj
        self.throw("TypeError", f"'{self.class_of(obj).name}' object is not subscriptable")

    def setitem(self, obj, idx, value):
        obj = self.force(obj)
        if not isinstance(idx, slice):
            idx = self.force(idx)
        if isinstance(obj, Sym):
            k = obj.core.cls
            if k is not None and (k.issub(LIST)):
                obj = self.sym_list(obj)
            elif k is not None and not k.issub(DICT) and (k.issub(STR) or k.issub(INT) or k.issub(FLOAT) or k is NONE):
                self.throw("TypeError", f"'{k.name}' object does not support item assignment")
            else:
                obj = self.sym_dict(obj)
        if isinstance(obj, ADict):
            self.dict_set(obj, idx, value)
            return
        if isinstance(obj, AList):
            self.note_write(obj, "set", key=idx, value=value)
            if isinstance(idx, slice):
                obj.items[slice(self.force(idx.start), self.force(idx.stop), self.force(idx.step))] = self.listof(value)
                return
            if isinstance(idx, Sym):
                idx = self.choose(len(obj.items), ("index", idx.name)) if obj.items else 0
            try:
                obj.items[idx] = value
            except IndexError:
                self.throw("IndexError", "list assignment index out of range")
            except TypeError as e:
                self.throw("TypeError", str(e))
            return
        if isinstance(obj, AInst):
            m = obj.cls.lookup("__setitem__")
            if m is not MISSING:
                self.call(ABound(m, obj) if isinstance(m, AFunc) else m, [idx, value] if isinstance(m, AFunc) else [obj, idx, value], {})
                return
        self.throw("TypeError", f"'{self.class_of(obj).name}' object does not support item assignment")

    def delitem(self, obj, idx):
        obj = self.force(obj)
        if isinstance(obj, Sym):
            k = obj.core.cls
            if k is None or k.issub(DICT):
                obj = self.sym_dict(obj)
        if isinstance(obj, ADict):
            if not self.dict_del(obj, idx):
                self.throw("KeyError", self.force(idx))
            return
        if isinstance(obj, AList):
            self.note_write(obj, "del", key=idx)
            i = idx if isinstance(idx, slice) else self.force(idx)
            if isinstance(i, slice):
                i = slice(self.force(i.start), self.force(i.stop), self.force(i.step))
            try:
                del obj.items[i]
            except IndexError:
                self.throw("IndexError", "list index out of range")
            return
        if isinstance(obj, AInst):
            m = obj.cls.lookup("__delitem__")
            if m is not MISSING:
                self.call(ABound(m, obj) if isinstance(m, AFunc) else m, [idx] if isinstance(m, AFunc) else [obj, idx], {})
                return
        self.throw("TypeError", f"'{self.class_of(obj).name}' object doesn't support item deletion")

    # ------------------------------------------------------------------ text
    def to_str(self, v, spec="", conv=-1):
        """Abstract str(); returns str or AStr."""
        v = self.force(v)
        if conv == 114:  # !r
            if isinstance(v, (str, int, float, bytes)) or v is None:
                return repr(v) if not isinstance(v, (CStr, CInt, CBool, CDouble)) else repr(_plain(v))
            x = self.exact_repr(v)
            if x is None and isinstance(v, AInst):
                x = self.inst_repr(v)
            return self.mkstr([v]) if x is None else format(x, spec) if spec and isinstance(x, str) else x
        if isinstance(v, CBool):
            return "True" if v else "False"
        if isinstance(v, str):
            try:
                return format(str(v), spec)
            except ValueError as e:
                self.throw("ValueError", str(e))
        if isinstance(v, AStr) and not spec:
            return v
        if spec and (isinstance(v, AStr) or isinstance(v, Sym) and v.core.cls is not None and v.core.cls.issub(STR)):
            m = self.singletons.setdefault("fmt", {})
            k = (spec, V.hkey(v))
            if k not in m:
                m[k] = Sym(f"format({v!r}, {spec})", STR)
                self.keep.append(v)
            return self.mkstr([m[k]])
        if v is None or isinstance(v, (bool, int, float, bytes)):
            try:
                return format(v, spec) if spec else str(_plain(v))
            except (ValueError, TypeError) as e:
                self.throw(type(e).__name__, str(e))
        if isinstance(v, AProperty):
            return "<property object at 0x7f0000000000>"
        if isinstance(v, AInst):
            m = v.cls.lookup("__format__") if spec else MISSING
            if isinstance(m, AFunc):
                return self.call(ABound(m, v), [spec], {})
            m = v.cls.lookup("__str__")
            if m is MISSING:
                m = v.cls.lookup("__repr__")
            if isinstance(m, AFunc):
                r = self.call(ABound(m, v), [], {})
                return r if isinstance(r, (str, AStr)) else self.mkstr([r])
            if v.cls.issub(EXC["BaseException"]):
                a = v.attrs.get("args", ())
                if isinstance(a, tuple) and len(a) == 1 and not v.cls.issub(EXC["KeyError"]):
                    return self.to_str(a[0])
                if isinstance(a, tuple) and len(a) == 1 and v.cls.full == "KeyError":
                    return self.to_str(a[0], "", 114)
                if isinstance(a, tuple) and not a:
                    return ""
                return self.mkstr([v])
            x = self.inst_repr(v, True)
            return self.mkstr([v]) if x is None else x
        if isinstance(v, AClass):
            return f"<class '{v.full}'>"
        x = self.exact_repr(v)
        return self.mkstr([v]) if x is None else x

    def inst_repr(self, v, text=False):
        """repr() (or str()) of an instance whose class defines it, else None."""
        fl = V._flags(v.cls)
        if "enumval" in fl and text and v.cls.lookup("__str_value__") is not MISSING:
            return self.to_str(v.attrs["value"])
        if "enum" in fl and v.cls.ns.get("__members__"):
            if text:
                return f"{v.cls.name}.{v.attrs['name']}"
            return self.mkstr([f"<{v.cls.name}.{v.attrs['name']}: ", self.to_str(v.attrs["value"], "", 114), ">"])
        m = v.cls.lookup("__repr__")
        if isinstance(m, AFunc):
            r = self.call(ABound(m, v), [], {})
            return r if isinstance(r, (str, AStr)) else self.mkstr([r])
        if v.cls.fields is not None and ("nt" in fl or "dc" in fl) and all(f in v.attrs for f, _ in v.cls.fields):
            self.reprs = getattr(self, "reprs", 0) + 1
            try:
                if self.reprs > 12:
                    return None
                parts = [f"{v.cls.qualname}("]
                for i, (f, _) in enumerate(v.cls.fields):
                    parts += [f"{', ' if i else ''}{f}=", self.to_str(v.attrs[f], "", 114)]
                return self.mkstr(parts + [")"])
            finally:
                self.reprs -= 1
        if v.cls.issub(EXC["BaseException"]) and isinstance(v.attrs.get("args"), tuple) and v.cls.lookup("__str__") is MISSING:
            xs = [self.to_str(x, "", 114) for x in v.attrs["args"]]
            parts = [f"{v.cls.name}("]
            for i, x in enumerate(xs):
                parts += [", " if i else "", x]
            return self.mkstr(parts + [")"])
        return None

    def exact_repr(self, v):
        """repr() of containers of plain constants, else None."""
        v = self.force(v)
        if isinstance(v, (CStr, CInt, CBool, CDouble, AStr)):
            return None
        if v is None or isinstance(v, (str, int, float, bool)):
            return repr(v)
        if isinstance(v, tuple):
            xs = [self.exact_repr(x) for x in v]
            return None if None in xs else "(" + ", ".join(xs) + (",)" if len(xs) == 1 else ")")
        if isinstance(v, AList) and v.cls is LIST:
            xs = [self.exact_repr(x) for x in self.listof(v)]
            return None if None in xs else "[" + ", ".join(xs) + "]"
        if isinstance(v, ADict) and v.cls is DICT:
            xs = [(self.exact_repr(k), self.exact_repr(x)) for k, x in self.dict_items(v)]
            return None if any(None in x for x in xs) else "{" + ", ".join(f"{k}: {x}" for k, x in xs) + "}"
        return None

    def mkstr(self, parts):
        out = []
        for p in parts:
            if isinstance(p, AStr):
                ps = p.parts
            else:
                ps = [p]
            for q in ps:
                if isinstance(q, str):
                    q = str(q)
                    if not q:
                        continue
                    if out and isinstance(out[-1], str):
                        out[-1] += q
                        continue
                out.append(q)
        if not out:
            return ""
        if len(out) == 1 and isinstance(out[0], str):
            return out[0]
        return AStr(out)

    # ------------------------------------------------------------------ modules
    def load_module(self, name):
        m = self.modules.get(name)
        if m is not None:
            return m
        if name not in self.p.files:
            return self.lib.ext_module(self, name)
        parent = name.rpartition(".")[0]
        if parent:
            self.load_module(parent)
        m = AModule(name)
        self.modules[name] = m
        m.globals["__name__"] = name
        m.globals["__file__"] = self.p.files[name]
        env = Env("module", None, name)
        env.vars = m.globals
        fr = Frame(None, self.p.relfile(name), env)
        self.frames.append(fr)
        try:
            self.exec_block(self.p.tree(name).body, env)
        finally:
            self.frames.pop()
        if parent and parent in self.modules and parent in self.p.files:
            self.modules[parent].globals.setdefault(name.rpartition(".")[2], m)
        return m

    def import_name(self, name):
        if name in self.p.files or name.split(".")[0] + "" in {f.split(".")[0] for f in self.p.files}:
            if name in self.p.files:
                return self.load_module(name)
            # namespace package directory?
            pref = name + "."
            if any(f.startswith(pref) for f in self.p.files):
                m = self.modules.get(name)
                if m is None:
                    m = AModule(name)
                    self.modules[name] = m
                return m
            self.throw("ModuleNotFoundError", f"No module named '{name}'")
        return self.lib.ext_module(self, name)

    # ------------------------------------------------------------------ function calls
    def call(self, fn, args, kwargs, node=None):
        fn = self.force(fn)
        self.steps += 1
        if self.steps > MAX_STEPS:
            raise Abort("step bound")
        if isinstance(fn, ABound):
            return self.call(fn.func, [fn.self_] + list(args), kwargs, node)
        if isinstance(fn, AFunc):
            return self.call_func(fn, list(args), kwargs)
        if isinstance(fn, ABuiltin):
            return fn.fn(self, list(args), kwargs)
        if isinstance(fn, AClass):
            return self.instantiate(fn, list(args), kwargs)
        if isinstance(fn, AInst):
            m = fn.cls.lookup("__call__")
            if m is not MISSING:
                return self.call(m, [fn] + list(args), kwargs)
            self.throw("TypeError", f"'{fn.cls.name}' object is not callable")
        if isinstance(fn, Sym):
            return self.lib.call_sym(self, fn, args, kwargs)
        if isinstance(fn, (AStatic, AClassMethod)):
            return self.call(fn.f, args, kwargs)
        self.throw("TypeError", f"'{self.class_of(fn).name}' object is not callable")

    def bind(self, fn, args, kwargs):
        a = fn.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        out = {}
        kwargs = dict(kwargs)
        n = len(pos)
        for i, v in enumerate(args[:n]):
            out[pos[i]] = v
        extra = args[n:]
        if extra and not a.vararg:
            self.throw("TypeError", f"{fn.name}() takes {n} positional arguments but {len(args)} were given")
        if a.vararg:
            out[a.vararg.arg] = tuple(extra)
        posonly = {x.arg for x in a.posonlyargs}
        kwonly = [x.arg for x in a.kwonlyargs]
        kwextra = {}
        for k, v in kwargs.items():
            if (k in pos and k not in posonly) or k in kwonly:
                if k in out:
                    self.throw("TypeError", f"{fn.name}() got multiple values for argument '{k}'")
                out[k] = v
            else:
                kwextra[k] = v
        if kwextra and not a.kwarg:
            self.throw("TypeError", f"{fn.name}() got an unexpected keyword argument '{next(iter(kwextra))}'")
        if a.kwarg:
            out[a.kwarg.arg] = ADict(kwextra)
        dfl, kwd = self.defaults_of(fn)
        for i, d in enumerate(dfl):
            nm = pos[n - len(dfl) + i]
            if nm not in out:
                out[nm] = d
        for k in kwonly:
            if k not in out and k in kwd:
                out[k] = kwd[k]
        missing = [p for p in pos + kwonly if p not in out]
        if missing:
            self.throw("TypeError", f"{fn.name}() missing required argument: {', '.join(missing)}")
        return out

    def defaults_of(self, fn):
        if not any(isinstance(d, Heap) for d in fn.defaults) and not any(isinstance(d, Heap) for d in fn.kwdefaults.values()):
            return fn.defaults, fn.kwdefaults
        r = self.fn_defaults.get(fn.uid)
        if r is None:
            memo = {}
            r = ([clone(d, memo) for d in fn.defaults], {k: clone(d, memo) for k, d in fn.kwdefaults.items()})
            self.fn_defaults[fn.uid] = r
        return r

    def call_func(self, fn, args, kwargs):
        ov = self.override.get(fn.full)
        info = fn.info or func_info_any(fn)
        if ov is not None:
            bound = self.bind(fn, args, kwargs)
            if info.is_async and not info.is_gen:
                self.called.add(fn.full)

                def run_ov():
                    return ov(self, bound)
                return ACoro(run_ov, fn.full)
            self.called.add(fn.full)
            return ov(self, bound)
        bound = self.bind(fn, args, kwargs)
        env = Env("function", fn.env, fn.module, info)
        env.vars.update(bound)
        if info.is_gen:
            return AGen(fn, env)
        if info.is_async:
            return ACoro(lambda: self.run_body(fn, env, None), fn.full)
        return self.run_body(fn, env, None)

    def run_body(self, fn, env, on_yield):
        if self.recursion and len(self.frames) > self.recursion:
            self.throw("RecursionError", "maximum recursion depth exceeded")
        if len(self.frames) > MAX_DEPTH:
            raise Abort(f"call depth at {fn.full}")
        fr = Frame(fn, self.p.relfile(fn.module), env)
        fr.on_yield = on_yield
        self.called.add(fn.full)
        fr.node = fn.node
        self.frames.append(fr)
        try:
            if isinstance(fn.node, ast.Lambda):
                return self.ev(fn.node.body, env)
            try:
                self.exec_block(fn.node.body, env)
            except ReturnSig as r:
                return r.value
            return None
        finally:
            self.frames.pop()

    def instantiate(self, cls, args, kwargs):
        r = self.lib.construct(self, cls, args, kwargs)
        if r is not MISSING:
            return r
        fl = V._flags(cls)
        if cls.fields is not None and ("nt" in fl or "dc" in fl) and not isinstance(cls.ns.get("__init__"), AFunc):
            names = [f for f, _ in cls.fields]
            attrs = {}
            if len(args) > len(names):
                self.throw("TypeError", f"{cls.name}() takes {len(names)} positional arguments but {len(args)} were given")
            for n, v in zip(names, args):
                attrs[n] = v
            for k, v in kwargs.items():
                if k not in names:
                    self.throw("TypeError", f"{cls.name}() got an unexpected keyword argument '{k}'")
                attrs[k] = v
            for n, d in cls.fields:
                if n not in attrs:
                    if d is MISSING:
                        self.throw("TypeError", f"{cls.name}() missing required argument: '{n}'")
                    if isinstance(d, tuple) and len(d) == 2 and d[0] == "factory":
                        attrs[n] = self.call(d[1], [], {})
                    else:
                        attrs[n] = d
            inst = AInst(cls, {n: attrs[n] for n in names})
            pi = cls.lookup("__post_init__")
            if isinstance(pi, AFunc):
                self.call(ABound(pi, inst), [], {})
            return inst
        nw = cls.lookup("__new__")
        if isinstance(nw, (AFunc, AStatic)):
            inst = self.call(nw.f if isinstance(nw, AStatic) else nw, [cls] + args, kwargs)
            if not (isinstance(inst, AInst) and inst.cls.issub(cls)):
                return inst
        else:
            inst = AInst(cls)
            if cls.issub(EXC["BaseException"]):
                inst.attrs["args"] = tuple(args)
        ini = cls.lookup("__init__")
        if isinstance(ini, AFunc):
            self.call(ABound(ini, inst), args, kwargs)
        elif isinstance(ini, ABuiltin):
            ini.fn(self, [inst] + args, kwargs)
        elif not cls.issub(EXC["BaseException"]):
            if args or kwargs:
                if cls.kind == "repo" and all(b.kind == "repo" or b is OBJECT for b in cls.mro):
                    self.throw("TypeError", f"{cls.name}() takes no arguments")
                inst.attrs["__args__"] = tuple(args)
                inst.attrs.update(kwargs)
        else:
            for k, v in kwargs.items():
                inst.attrs[k] = v
        return inst

    # ------------------------------------------------------------------ awaiting
    def await_(self, v):
        v = self.force(v)
        if isinstance(v, ACoro):
            if v.started:
                self.throw("RuntimeError", "cannot reuse already awaited coroutine")
            v.started = True
            return v.run()
        if isinstance(v, AFut):
            return self.loop.wait_fut(v)
        if isinstance(v, Sym):
            return self.memo_sym(v, ("await",), f"await {v.name}")
        if isinstance(v, AInst):
            m = v.cls.lookup("__await__")
            if m is not MISSING:
                if isinstance(m, ABuiltin):
                    return m.fn(self, [v], {})
                r = self.call(ABound(m, v), [], {})
                return self.await_(r) if isinstance(r, (ACoro, ATask)) else r
        self.throw("TypeError", f"object {self.class_of(v).name} can't be used in 'await' expression")

    # ------------------------------------------------------------------ statements
    def exec_block(self, stmts, env):
        for s in stmts:
            self.exec_stmt(s, env)

    def exec_stmt(self, s, env):
        fr = self.frames[-1]
        fr.node = s
        self.steps += 1
        if self.steps > MAX_STEPS:
            raise Abort("step bound")
        self.lines.add((fr.file, s.lineno))
        STMT[type(s)](self, s, env)

    def s_Expr(self, s, env):
        self.ev(s.value, env)

    def s_Pass(self, s, env):
        pass

    def s_Assign(self, s, env):
        v = self.ev(s.value, env)
        for t in s.targets:
            self.assign(t, v, env)

    def s_AnnAssign(self, s, env):
        if env.kind == "class":
            env.vars.setdefault("__ann__", []).append((s.target.id, s.annotation))
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, env), env)

    def s_AugAssign(self, s, env):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.load_name(t.id, env)
            self.assign(t, self.inplace(s.op, cur, self.ev(s.value, env)), env)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env)
            cur = self.getattr_(o, t.attr)
            self.setattr_(o, t.attr, self.inplace(s.op, cur, self.ev(s.value, env)))
        else:
            o = self.ev(t.value, env)
            i = self.ev_index(t.slice, env)
            cur = self.getitem(o, i)
            self.setitem(o, i, self.inplace(s.op, cur, self.ev(s.value, env)))

    def inplace(self, op, cur, val):
        cur, val = self.force(cur), self.force(val)
        if isinstance(cur, AList) and isinstance(op, ast.Add):
            self.note_write(cur, "extend")
            cur.items.extend(self.listof(val))
            return cur
        if isinstance(cur, ADict) and isinstance(op, ast.BitOr):
            self.lib.dict_update(self, cur, val)
            return cur
        if isinstance(cur, ASet):
            vs = {hkey(self.force(x)): x for x in self.listof(val)}
            self.note_write(cur, "update")
            if isinstance(op, ast.BitOr):
                for h, x in vs.items():
                    cur.e.setdefault(h, x)
            elif isinstance(op, ast.Sub):
                for h in vs:
                    cur.e.pop(h, None)
            elif isinstance(op, ast.BitAnd):
                for h in list(cur.e):
                    if h not in vs:
                        del cur.e[h]
            elif isinstance(op, ast.BitXor):
                for h, x in vs.items():
                    if h in cur.e:
                        del cur.e[h]
                    else:
                        cur.e[h] = x
            return cur
        return self.binop(op, cur, val)

    def s_Delete(self, s, env):
        for t in s.targets:
            if isinstance(t, ast.Name):
                e = self.env_for(t.id, env)
                if t.id in e.vars:
                    del e.vars[t.id]
                else:
                    self.throw("NameError", t.id)
            elif isinstance(t, ast.Subscript):
                self.delitem(self.ev(t.value, env), self.ev_index(t.slice, env))
            elif isinstance(t, ast.Attribute):
                o = self.force(self.ev(t.value, env))
                if isinstance(o, (AInst, Sym)) and t.attr in o.attrs:
                    self.note_write(o, "delattr", key=t.attr)
                    del o.attrs[t.attr]
                else:
                    self.throw("AttributeError", t.attr)

    def s_Return(self, s, env):
        raise ReturnSig(self.ev(s.value, env) if s.value is not None else None)

    def s_If(self, s, env):
        if self.truth(self.ev(s.test, env)):
            self.exec_block(s.body, env)
        else:
            self.exec_block(s.orelse, env)

    def s_While(self, s, env):
        n = 0
        while True:
            self.frames[-1].node = s
            if not self.truth(self.ev(s.test, env)):
                self.exec_block(s.orelse, env)
                return
            n += 1
            if n > MAX_ITER:
                raise Abort("loop bound")
            try:
                self.exec_block(s.body, env)
            except BreakSig:
                return
            except ContinueSig:
                pass

    def s_For(self, s, env):
        it = self.force(self.ev(s.iter, env))
        self.for_loop(s, env, it, self.iter_values(it))

    def for_loop(self, s, env, it, values):
        try:
            for v in values:
                self.assign(s.target, v, env)
                try:
                    self.exec_block(s.body, env)
                except BreakSig:
                    return
                except ContinueSig:
                    pass
                self.frames[-1].node = s
        finally:
            if isinstance(it, AGen) and isinstance(s.iter, ast.Call) and not it.done and not isinstance(sys.exc_info()[1], (Abort, Kill)):
                self.gen_close(it)
        self.exec_block(s.orelse, env)

    def s_AsyncFor(self, s, env):
        it = self.force(self.ev(s.iter, env))
        if isinstance(it, AInst) and isinstance(it.cls.lookup("__aiter__"), AFunc):
            def values():
                src = self.call(ABound(it.cls.lookup("__aiter__"), it), [], {})
                if isinstance(src, AGen):
                    yield from self.iter_values(src)
                    return
                while True:
                    try:
                        x = self.await_(self.call(self.getattr_(src, "__anext__"), [], {}))
                    except AExc as e:
                        if e.value.cls.issub(EXC["StopAsyncIteration"]):
                            return
                        raise
                    yield x
            return self.for_loop(s, env, it, values())
        self.for_loop(s, env, it, self.iter_values(it))

    def s_Break(self, s, env):
        raise BreakSig()

    def s_Continue(self, s, env):
        raise ContinueSig()

    def s_Global(self, s, env):
        pass

    def s_FunctionDef(self, s, env):
        f = self.make_func(s, env)
        v = f
        for d in reversed(s.decorator_list):
            v = self.apply_decorator(d, v, env)
        self.assign_name(s.name, v, env)

    def make_func(self, s, env):
        defaults = [self.ev(d, env) for d in s.args.defaults]
        kwd = {a.arg: self.ev(d, env) for a, d in zip(s.args.kwonlyargs, s.args.kw_defaults) if d is not None}
        nm = getattr(s, "name", "<lambda>")
        qn = nm
        e = env
        pre = []
        while e is not None and e.kind != "module":
            if e.kind == "class":
                pre.append(e.vars.get("__qualname__", "?"))
                break
            if e.kind == "function" and self.frames and self.frames[-1].func is not None:
                pre.append(self.frames[-1].func.qualname + ".<locals>")
                break
            e = e.parent
        if pre:
            qn = pre[0] + "." + nm
        f = AFunc(s, env, env.module, qn, defaults, kwd)
        f.info = func_info_any(f)
        return f

    def apply_decorator(self, d, v, env):
        dec = self.force(self.ev(d, env))
        return self.call(dec, [v], {})

    def s_ClassDef(self, s, env):
        bases = [self.force(self.ev(b, env)) for b in s.bases]
        kws = {k.arg: self.ev(k.value, env) for k in s.keywords}
        cenv = Env("class", env, env.module)
        q = s.name
        if env.kind == "class":
            q = env.vars.get("__qualname__", "") + "." + s.name
        cenv.vars["__qualname__"] = q
        self.exec_block(s.body, cenv)
        ann = cenv.vars.pop("__ann__", [])
        flags = set()
        rb = []
        for b in bases:
            if isinstance(b, AClass):
                rb.append(b)
                if b.name == "NamedTuple" and b.module == "typing":
                    flags.add("nt")
                if b.name == "TypedDict":
                    flags.add("typeddict")
                if b.name in ("Enum", "StrEnum", "IntEnum", "Flag", "IntFlag") and b.module == "enum" or "enum" in V._flags(b):
                    flags.add("enum")
            elif isinstance(b, (Sym, ABuiltin, Union_)):
                pass
        ns = dict(cenv.vars)
        qual = ns.pop("__qualname__", q)
        fields = None
        if "nt" in flags:
            fields = [(n, ns.get(n, MISSING)) for n, _ in ann]
            for n, _ in ann:
                ns.pop(n, None)
            rb = [b for b in rb if b.name != "NamedTuple"] + [TUPLE]
        cls = AClass(s.name, rb or [OBJECT], ns, env.module, "repo", fields, qualname=qual)
        cls.flags |= flags
        cls.ann = ann
        for v in ns.values():
            f = v
            if isinstance(f, (AStatic, AClassMethod)):
                f = f.f
            if isinstance(f, AProperty):
                f = f.fget
            if isinstance(f, AFunc) and f.cls is None:
                f.cls = cls
        if "enum" in flags:
            members = []
            if any(b.name in ("StrEnum", "IntEnum") and b.module == "enum" or b in (STR, INT) for b in cls.mro):
                cls.flags.add("enumval")
            if any(b.name in ("StrEnum", "IntEnum") and b.module == "enum" for b in cls.mro):
                cls.ns["__str_value__"] = True
            last = 0
            for n, v in list(ns.items()):
                if not n.startswith("_") and not isinstance(v, (AFunc, AProperty, AStatic, AClassMethod, ABuiltin)):
                    if isinstance(v, AInst) and v.cls is self.lib.AUTO:
                        v = n.lower() if any(b.name == "StrEnum" for b in cls.mro) else last + 1
                    if isinstance(v, int):
                        last = v
                    m = next((x for x in members if _is_raw(v) and _is_raw(x.attrs["value"]) and x.attrs["value"] == v), None)
                    if m is None:
                        m = AInst(cls, {"name": n, "value": v, "_value_": v})
                        ini = cls.lookup("__init__")
                        if isinstance(ini, AFunc):
                            self.call(ABound(ini, m), list(v) if isinstance(v, tuple) else [v], {})
                        members.append(m)
                    ns[n] = m
            cls.ns["__members__"] = members
        for n, v in list(ns.items()):
            if isinstance(v, AInst) and isinstance(v.cls.lookup("__set_name__"), AFunc):
                self.call(ABound(v.cls.lookup("__set_name__"), v), [cls, n], {})
        for b in cls.mro[1:]:
            h = b.ns.get("__init_subclass__")
            if h is not None:
                h = h.f if isinstance(h, AClassMethod) else h
                if isinstance(h, AFunc):
                    self.call(ABound(h, cls), [], kws)
                break
        v = cls
        for d in reversed(s.decorator_list):
            v = self.apply_decorator(d, v, env)
        self.assign_name(s.name, v, env)

    def s_Import(self, s, env):
        for a in s.names:
            if a.asname:
                self.assign_name(a.asname, self.import_name(a.name), env)
            else:
                m = self.import_name(a.name.split(".")[0])
                if "." in a.name:
                    self.import_name(a.name)
                self.assign_name(a.name.split(".")[0], m, env)

    def s_ImportFrom(self, s, env):
        mod = s.module or ""
        if s.level:
            base = env.module
            isp = self.p.files.get(base, "").endswith("__init__.py")
            parts = base.split(".")
            drop = s.level - (1 if isp else 0)
            if drop:
                parts = parts[:-drop]
            mod = ".".join(parts + ([mod] if mod else []))
        if mod == "__future__":
            return
        m = self.import_name(mod)
        for a in s.names:
            if a.name == "*":
                if isinstance(m, AModule) and not m.ext:
                    for k, v in m.globals.items():
                        if not k.startswith("_"):
                            self.assign_name(k, v, env)
                continue
            v = self._getattr(m, a.name)
            if v is MISSING:
                self.throw("ImportError", f"cannot import name '{a.name}' from '{mod}'")
            self.assign_name(a.asname or a.name, v, env)

    def s_TypeAlias(self, s, env):
        self.assign_name(s.name.id, Sym(f"type:{s.name.id}"), env)

    def s_Assert(self, s, env):
        if not self.truth(self.ev(s.test, env)):
            self.throw("AssertionError", *([self.ev(s.msg, env)] if s.msg else []))

    def s_Raise(self, s, env):
        if s.exc is None:
            if not self.cur_exc:
                self.throw("RuntimeError", "No active exception to reraise")
            e = AExc(self.cur_exc[-1].value)
            e.trace = self.cur_exc[-1].trace
            raise e
        v = self.force(self.ev(s.exc, env))
        if isinstance(v, AClass):
            v = self.instantiate(v, [], {})
        if isinstance(v, Sym):
            v = AInst(EXC["Exception"], {"args": (v,), "sym": v})
        if not isinstance(v, AInst) or not v.cls.issub(EXC["BaseException"]):
            self.throw("TypeError", "exceptions must derive from BaseException")
        if s.cause is not None:
            v.attrs["__cause__"] = self.ev(s.cause, env)
        e = AExc(v)
        e.trace = self.where()
        raise e

    def exc_matches(self, e, typ):
        typ = self.force(typ)
        if isinstance(typ, tuple):
            return any(self.exc_matches(e, t) for t in typ)
        if isinstance(typ, AClass):
            return e.value.cls.issub(typ)
        if isinstance(typ, Sym):
            self.unmodelled(f"except {typ!r}")
            return bool(self.choose(2, ("except", repr(typ))))
        return False

    def s_Try(self, s, env):
        depth = len(self.frames)
        tdepth = len(self.timeout_stack)
        try:
            try:
                self.exec_block(s.body, env)
            except AExc as e:
                del self.frames[depth:]
                del self.timeout_stack[tdepth:]
                for h in s.handlers:
                    self.frames[-1].node = h
                    if h.type is None or self.exc_matches(e, self.ev(h.type, env)):
                        self.hook("caught", e, h)
                        if h.name:
                            self.assign_name(h.name, e.value, env)
                        self.cur_exc.append(e)
                        try:
                            self.exec_block(h.body, env)
                        finally:
                            self.cur_exc.pop()
                            if h.name:
                                en = self.env_for(h.name, env)
                                en.vars.pop(h.name, None)
                        break
                else:
                    raise
            else:
                self.exec_block(s.orelse, env)
        finally:
            if s.finalbody:
                et = sys.exc_info()[0]
                if et is None or et in (AExc, ReturnSig, BreakSig, ContinueSig):
                    saved = self.frames[-1].node
                    self.exec_block(s.finalbody, env)
                    self.frames[-1].node = saved

    def s_TryStar(self, s, env):
        depth = len(self.frames)
        try:
            try:
                self.exec_block(s.body, env)
            except AExc as e:
                del self.frames[depth:]
                group = e.value
                isg = group.cls.issub(EXC["BaseExceptionGroup"])
                def leaves(g):
                    if not g.cls.issub(EXC["BaseExceptionGroup"]):
                        return [g]
                    return [y for x in self.listof(self.getattr_(g, "exceptions")) for y in leaves(self.force(x))]
                rest = leaves(group)
                for h in s.handlers:
                    typ = self.ev(h.type, env)
                    hit = [x for x in rest if self.exc_matches(AExc(x), typ)]
                    if hit:
                        rest = [x for x in rest if x not in hit]
                        if h.name:
                            self.assign_name(h.name, self.exc("ExceptionGroup", "group", exceptions=tuple(hit)), env)
                        self.cur_exc.append(e)
                        try:
                            self.exec_block(h.body, env)
                        finally:
                            self.cur_exc.pop()
                if rest:
                    self.throw(self.exc("ExceptionGroup", "group", exceptions=tuple(rest)) if isg else rest[0])
            else:
                self.exec_block(s.orelse, env)
        finally:
            if s.finalbody:
                et = sys.exc_info()[0]
                if et is None or et in (AExc, ReturnSig, BreakSig, ContinueSig):
                    self.exec_block(s.finalbody, env)

    def s_With(self, s, env, i=0):
        if i >= len(s.items):
            self.exec_block(s.body, env)
            return
        item = s.items[i]
        cm = self.force(self.ev(item.context_expr, env))
        is_async = isinstance(s, ast.AsyncWith)

        def body(val):
            if item.optional_vars is not None:
                self.assign(item.optional_vars, val, env)
            self.s_With(s, env, i + 1)

        self.with_cm(cm, body, is_async)

    def with_cm(self, cm, body, is_async):
        depth = len(self.frames)
        if isinstance(cm, AGenCM):
            fn = cm.func
            genv = Env("function", fn.env, fn.module, fn.info or func_info_any(fn))
            genv.vars.update(self.bind(fn, cm.args, cm.kwargs))
            done = []
            outer = None

            def on_yield(v):
                if done:
                    self.throw("RuntimeError", "generator didn't stop")
                done.append(1)
                saved = self.frames[depth:]
                del self.frames[depth:]
                try:
                    body(v)
                except (ReturnSig, BreakSig, ContinueSig) as sig:
                    done.append(sig)
                finally:
                    del self.frames[depth:]
                    self.frames.extend(saved)
                return None
            self.run_body(fn, genv, on_yield)
            if len(done) > 1:
                raise done[1]
            if not done:
                self.throw("RuntimeError", "generator didn't yield")
            return
        enter, exit_ = self.lib.cm_methods(self, cm, is_async)
        val = enter()
        del self.frames[depth:]
        try:
            body(val)
        except AExc as e:
            del self.frames[depth:]
            if exit_(e):
                return
            raise
        except (ReturnSig, BreakSig, ContinueSig):
            exit_(None)
            raise
        exit_(None)

    # ------------------------------------------------------------------ match
    def s_Match(self, s, env):
        v = self.ev(s.subject, env)
        for c in s.cases:
            self.frames[-1].node = c.pattern
            binds = {}
            if self.match(c.pattern, v, env, binds):
                for k, x in binds.items():
                    self.assign_name(k, x, env)
                self.frames[-1].node = c.pattern
                if c.guard is not None and not self.truth(self.ev(c.guard, env)):
                    continue
                self.exec_block(c.body, env)
                return

    def match(self, p, v, env, binds):
        t = type(p)
        if t is ast.MatchValue:
            return self.eq(v, self.ev(p.value, env))
        if t is ast.MatchSingleton:
            return self.is_(v, p.value)
        if t is ast.MatchAs:
            if p.pattern is not None and not self.match(p.pattern, v, env, binds):
                return False
            if p.name:
                binds[p.name] = v
            return True
        if t is ast.MatchOr:
            for q in p.patterns:
                b = dict(binds)
                if self.match(q, v, env, b):
                    binds.update(b)
                    return True
            return False
        v = self.force(v)
        if t is ast.MatchSequence:
            if isinstance(v, (str, bytes, AStr)):
                return False
            if isinstance(v, Sym):
                if v.core.cls is None:
                    if not self.isinstance_(v, LIST):
                        return False
                elif not (v.core.cls.issub(LIST) or v.core.cls.issub(TUPLE)):
                    return False
                seq = self.sym_list(v).items
            else:
                seq = _seq(v)
                if seq is None:
                    return False
            star = [i for i, q in enumerate(p.patterns) if isinstance(q, ast.MatchStar)]
            if not star:
                if len(seq) != len(p.patterns):
                    return False
                return all(self.match(q, x, env, binds) for q, x in zip(p.patterns, seq))
            i = star[0]
            after = len(p.patterns) - i - 1
            if len(seq) < i + after:
                return False
            for q, x in zip(p.patterns[:i], seq[:i]):
                if not self.match(q, x, env, binds):
                    return False
            mid = seq[i: len(seq) - after]
            if p.patterns[i].name:
                binds[p.patterns[i].name] = AList(mid)
            for q, x in zip(p.patterns[i + 1:], seq[len(seq) - after:]):
                if not self.match(q, x, env, binds):
                    return False
            return True
        if t is ast.MatchMapping:
            if isinstance(v, Sym):
                if v.core.cls is None:
                    if not self.isinstance_(v, DICT):
                        return False
                elif not v.core.cls.issub(DICT):
                    return False
                d = self.sym_dict(v)
            elif isinstance(v, ADict):
                d = v
            else:
                return False
            used = set()
            for k, q in zip(p.keys, p.patterns):
                kv = self.ev(k, env)
                x = self.dict_get(d, kv)
                if x is MISSING:
                    return False
                used.add(hkey(self.force(kv)))
                if not self.match(q, x, env, binds):
                    return False
            if p.rest:
                binds[p.rest] = ADict([(k, x) for k, x in self.dict_items(d) if hkey(self.force(k)) not in used])
            return True
        if t is ast.MatchClass:
            cls = self.force(self.ev(p.cls, env))
            if not self.isinstance_(v, cls):
                return False
            if p.patterns:
                if isinstance(cls, AClass) and any(b in _SELF_MATCH for b in cls.mro):
                    if len(p.patterns) != 1:
                        self.throw("TypeError", "too many positional sub-patterns")
                    if not self.match(p.patterns[0], v, env, binds):
                        return False
                else:
                    ma = cls.lookup("__match_args__") if isinstance(cls, AClass) else MISSING
                    if ma is MISSING:
                        ma = tuple(f for f, _ in cls.fields) if isinstance(cls, AClass) and cls.fields else ()
                    if isinstance(ma, AList):
                        ma = ma.items
                    if len(p.patterns) > len(ma):
                        self.throw("TypeError", f"{cls.name}() accepts {len(ma)} positional sub-patterns")
                    for nm, q in zip(ma, p.patterns):
                        if not self.match_attr(v, nm, q, env, binds):
                            return False
            for nm, q in zip(p.kwd_attrs, p.kwd_patterns):
                if not self.match_attr(v, nm, q, env, binds):
                    return False
            return True
        raise Abort(f"pattern {t.__name__}")

    def match_attr(self, v, nm, q, env, binds):
        try:
            a = self.getattr_(v, nm)
        except AExc as e:
            if e.value.cls.issub(EXC["AttributeError"]):
                return False
            raise
        return self.match(q, a, env, binds)

    # ------------------------------------------------------------------ names
    def env_for(self, name, env):
        """Environment in which an assignment to `name` takes place."""
        e = env
        while e.kind == "comp":
            e = e.parent
        if e.kind == "function":
            if name in e.info.globals:
                while e.kind != "module":
                    e = e.parent
                return e
            if name in e.info.nonlocals:
                e = e.parent
                while e is not None and not (e.kind == "function" and name in e.info.locals):
                    e = e.parent
                if e is None:
                    raise Abort("nonlocal")
        return e

    def assign_name(self, name, v, env):
        self.env_for(name, env).vars[name] = v

    def load_name(self, name, env):
        e = env
        first = True
        while e is not None:
            if name in e.vars and (first or e.kind != "class"):
                v = e.vars[name]
                return v
            if e.kind == "function":
                if name in e.info.locals:
                    if e is env or first or self._same_scope(env, e):
                        self.throw("UnboundLocalError", f"cannot access local variable '{name}' where it is not associated with a value")
                    self.throw("NameError", f"cannot access free variable '{name}'")
                if name in e.info.globals:
                    while e.kind != "module":
                        e = e.parent
                    first = True
                    continue
            first = first and e.kind == "comp"
            e = e.parent
        m = self.modules.get(env.module)
        if m is not None and name in m.globals:
            return m.globals[name]
        b = self.lib.BUILTINS.get(name, MISSING)
        if b is not MISSING:
            return b
        if hasattr(builtins, name):
            return self.unmodelled(f"builtin {name}")
        self.throw("NameError", f"name '{name}' is not defined")

    def _same_scope(self, env, e):
        while env is not e:
            if env is None or env.kind != "comp":
                return False
            env = env.parent
        return True

    def assign(self, t, v, env):
        k = type(t)
        if k is ast.Name:
            self.assign_name(t.id, v, env)
        elif k is ast.Attribute:
            self.setattr_(self.ev(t.value, env), t.attr, v)
        elif k is ast.Subscript:
            self.setitem(self.ev(t.value, env), self.ev_index(t.slice, env), v)
        elif k in (ast.Tuple, ast.List):
            vf = self.force(v)
            if isinstance(vf, Sym) and (vf.core.cls is None or vf.core.cls.issub(TUPLE)) and vf.as_list is None and vf.core.length is None:
                n = len(t.elts)
                if not any(isinstance(x, ast.Starred) for x in t.elts):
                    vf.core.length = n
                    vf.core.truth = n > 0
            vals = self.listof(vf)
            star = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if star:
                i = star[0]
                after = len(t.elts) - i - 1
                if len(vals) < i + after:
                    self.throw("ValueError", "not enough values to unpack")
                for x, y in zip(t.elts[:i], vals[:i]):
                    self.assign(x, y, env)
                self.assign(t.elts[i].value, AList(vals[i: len(vals) - after]), env)
                for x, y in zip(t.elts[i + 1:], vals[len(vals) - after:]):
                    self.assign(x, y, env)
            else:
                if len(vals) != len(t.elts):
                    self.throw("ValueError", f"wrong number of values to unpack (expected {len(t.elts)}, got {len(vals)})")
                for x, y in zip(t.elts, vals):
                    self.assign(x, y, env)
        elif k is ast.Starred:
            self.assign(t.value, v, env)
        else:
            raise Abort(f"assign {k}")

    # ------------------------------------------------------------------ expressions
    def ev(self, n, env):
        return EXPR[type(n)](self, n, env)

    def ev_index(self, n, env):
        if isinstance(n, ast.Slice):
            return slice(*(None if x is None else self.ev(x, env) for x in (n.lower, n.upper, n.step)))
        return self.ev(n, env)

    def e_Constant(self, n, env):
        return n.value

    def e_Name(self, n, env):
        v = self.load_name(n.id, env)
        if isinstance(v, Lazy) and v.chosen is not None:
            return self.force(v)
        return v

    def e_Attribute(self, n, env):
        return self.getattr_(self.ev(n.value, env), n.attr)

    def e_Subscript(self, n, env):
        o = self.ev(n.value, env)
        return self.getitem(o, self.ev_index(n.slice, env))

    def e_Slice(self, n, env):
        return self.ev_index(n, env)

    def e_List(self, n, env):
        return AList(self.ev_elts(n.elts, env))

    def e_Tuple(self, n, env):
        return tuple(self.ev_elts(n.elts, env))

    def e_Set(self, n, env):
        s = ASet()
        for x in self.ev_elts(n.elts, env):
            s.e.setdefault(self.hk(x), self.force(x))
        return s

    def ev_elts(self, elts, env):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                out.extend(self.listof(self.ev(e.value, env)))
            else:
                out.append(self.ev(e, env))
        return out

    def e_Dict(self, n, env):
        d = ADict()
        for k, v in zip(n.keys, n.values):
            if k is None:
                self.lib.dict_update(self, d, self.ev(v, env))
            else:
                kv = self.ev(k, env)
                self.dict_set(d, kv, self.ev(v, env))
        return d

    def e_Call(self, n, env):
        fr = self.frames[-1]
        if isinstance(n.func, ast.Name) and n.func.id == "super" and not n.args:
            return self.lib.make_super(self, env, self.frames[-1])
        fn = self.ev(n.func, env)
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                args.extend(self.listof(self.ev(a.value, env)))
            else:
                args.append(self.ev(a, env))
        kwargs = {}
        for k in n.keywords:
            if k.arg is None:
                d = self.force(self.ev(k.value, env))
                if isinstance(d, Sym):
                    d = self.sym_dict(d)
                for kk, vv in self.dict_items(d):
                    kwargs[str(self.force(kk))] = vv
            else:
                kwargs[k.arg] = self.ev(k.value, env)
        saved = fr.node
        fr.node = n
        r = self.call(fn, args, kwargs, n)
        fr.node = saved
        return r

    def e_Await(self, n, env):
        v = self.ev(n.value, env)
        self.frames[-1].node = n
        return self.await_(v)

    def e_Yield(self, n, env):
        v = self.ev(n.value, env) if n.value is not None else None
        return self.do_yield(v)

    def do_yield(self, v):
        fr = self.frames[-1]
        if fr.on_yield is None:
            raise Abort("yield outside generator")
        return fr.on_yield(v)

    def e_YieldFrom(self, n, env):
        it = self.force(self.ev(n.value, env))
        sent = None
        if isinstance(it, AGen):
            while True:
                r = self.gen_next(it, sent)
                if r is None:
                    return it.ret
                sent = self.do_yield(r[0])
        for v in self.iter_values(it):
            self.do_yield(v)
        return None

    def e_Lambda(self, n, env):
        return self.make_func(n, env)

    def e_IfExp(self, n, env):
        return self.ev(n.body if self.truth(self.ev(n.test, env)) else n.orelse, env)

    def e_BoolOp(self, n, env):
        is_and = isinstance(n.op, ast.And)
        v = None
        for i, e in enumerate(n.values):
            v = self.ev(e, env)
            if i == len(n.values) - 1:
                return v
            t = self.truth(v)
            if is_and and not t:
                return v
            if not is_and and t:
                return v
        return v

    def e_UnaryOp(self, n, env):
        v = self.ev(n.operand, env)
        if isinstance(n.op, ast.Not):
            return not self.truth(v)
        v = self.force(v)
        if isinstance(v, (Sym, AStr)):
            if isinstance(v, Sym):
                return self.memo_sym(v, ("un", type(n.op).__name__), f"-{v.name}", v.core.cls)
            self.throw("TypeError", "bad operand type for unary")
        try:
            return {ast.USub: operator.neg, ast.UAdd: operator.pos, ast.Invert: operator.invert}[type(n.op)](v)
        except TypeError as e:
            self.throw("TypeError", str(e))

    def e_BinOp(self, n, env):
        a = self.ev(n.left, env)
        b = self.ev(n.right, env)
        return self.binop(n.op, a, b)

    def binop(self, op, a, b):
        a, b = self.force(a), self.force(b)
        if isinstance(a, (AClass, Union_)) or isinstance(b, (AClass, Union_)):
            if isinstance(op, ast.BitOr):
                ms = []
                for x in (a, b):
                    ms.extend(x.members if isinstance(x, Union_) else [x])
                return Union_(ms)
        if isinstance(op, ast.BitOr):
            da, db = self.as_adict(a), self.as_adict(b)
            if da is not None and db is not None:
                d = ADict(cls=DICT)
                d.default_factory = da.default_factory
                self.lib.dict_update(self, d, da)
                self.lib.dict_update(self, d, db)
                return d
            if isinstance(a, (Sym, ABuiltin)) or isinstance(b, (Sym, ABuiltin)):
                return Sym("type-union")
        if isinstance(a, ASet) or isinstance(b, ASet):
            if isinstance(a, AIter) or isinstance(a, Sym):
                a = ASet([self.force(x) for x in self.listof(a)])
            if isinstance(b, AIter) or isinstance(b, Sym):
                b = ASet([self.force(x) for x in self.listof(b)])
            if not (isinstance(a, ASet) and isinstance(b, ASet)):
                self.throw("TypeError", "unsupported operand type(s) for set op")
            r = ASet(cls=a.cls)
            if isinstance(op, ast.BitOr):
                r.e.update(a.e)
                for h, x in b.e.items():
                    r.e.setdefault(h, x)
            elif isinstance(op, ast.BitAnd):
                r.e = {h: x for h, x in a.e.items() if h in b.e}
            elif isinstance(op, ast.Sub):
                r.e = {h: x for h, x in a.e.items() if h not in b.e}
            elif isinstance(op, ast.BitXor):
                r.e = {h: x for h, x in a.e.items() if h not in b.e}
                r.e.update({h: x for h, x in b.e.items() if h not in a.e})
            else:
                self.throw("TypeError", "unsupported operand type(s)")
            return r
        if isinstance(a, AIter) and isinstance(op, (ast.Sub, ast.BitAnd, ast.BitOr)):
            return self.binop(op, ASet([self.force(x) for x in self.listof(a)]),
                              ASet([self.force(x) for x in self.listof(b)]))
        if isinstance(op, ast.Add):
            if isinstance(a, AList) and isinstance(b, AList):
                return AList(a.items + b.items)
            if isinstance(a, tuple) and isinstance(b, tuple):
                return a + b
            if isinstance(a, AList) and isinstance(b, Sym) and (b.core.cls is None or b.core.cls.issub(LIST)):
                return AList(a.items + self.listof(b))
            if isinstance(b, AList) and isinstance(a, Sym) and (a.core.cls is None or a.core.cls.issub(LIST)):
                return AList(self.listof(a) + b.items)
            if _textual(a) and _textual(b):
                return self.mkstr([a, b])
        if isinstance(op, ast.Mult) and isinstance(a, AList) and isinstance(b, int):
            return AList(a.items * b)
        if isinstance(op, ast.Mod) and isinstance(a, (str, AStr)):
            if not isinstance(a, str):
                return self.unmodelled("% formatting of an unknown text")
            return self.lib.percent(self, a, b)
        if isinstance(a, AInst) or isinstance(b, AInst):
            nm = _DUNDER.get(type(op))
            for x, y, m in ((a, b, f"__{nm}__"), (b, a, f"__r{nm}__")):
                if isinstance(x, AInst):
                    f = x.cls.lookup(m)
                    if isinstance(f, AFunc):
                        return self.call(ABound(f, x), [y], {})
                    if isinstance(f, ABuiltin):
                        return f.fn(self, [x, y], {})
        if _is_raw(a) and _is_raw(b):
            try:
                return _BIN[type(op)](a, b)
            except Exception as e:
                self.host_exc(e)
        if isinstance(a, Sym) or isinstance(b, Sym):
            ka, kb = self.class_of(a), self.class_of(b)
            if isinstance(op, ast.Add):
                if ka is not None and kb is not None:
                    if ka.issub(STR) != kb.issub(STR):
                        self.throw("TypeError", "can only concatenate str")
                    if not (ka.issub(STR) or ka.issub(INT) or ka.issub(FLOAT) or ka.issub(LIST) or ka.issub(TUPLE)):
                        self.throw("TypeError", "unsupported operand type(s) for +")
                if ka is not None and ka.issub(STR) or kb is not None and kb.issub(STR):
                    return self.mkstr([a, b])
            base = a if isinstance(a, Sym) else b
            other = b if base is a else a
            cls = None
            if ka is not None and kb is not None:
                if ka.issub(FLOAT) or kb.issub(FLOAT):
                    cls = FLOAT
                elif ka.issub(INT) and kb.issub(INT):
                    cls = FLOAT if isinstance(op, ast.Div) else INT
            key = ("bin", type(op).__name__, base is a, id(other.core) if isinstance(other, Sym) else repr(other))
            self.keep.append(other)
            return self.memo_sym(base, key, f"({a!r} {type(op).__name__} {b!r})", cls)
        self.throw("TypeError", f"unsupported operand type(s) for {type(op).__name__}: '{self.class_of(a).name}' and '{self.class_of(b).name}'")

    def as_adict(self, v):
        if isinstance(v, ADict):
            return v
        if isinstance(v, Sym) and v.core.cls is not None and v.core.cls.issub(DICT):
            return self.sym_dict(v)
        return None

    def is_(self, a, b):
        a, b = self.force(a), self.force(b)
        if a is b:
            return True
        if isinstance(b, Sym) and not isinstance(a, Sym):
            a, b = b, a
        if isinstance(a, Sym):
            if isinstance(b, Sym):
                return a.core is b.core and a is b
            if b is None:
                return self.isinstance_(a, NONE)
            if isinstance(b, bool):
                if a.core.cls is not None and not a.core.cls.issub(BOOL) and a.core.cls is not BOOL:
                    return False
                return self.eq(a, b) if a.core.cls is BOOL else (self.isinstance_(a, BOOL) and self.eq(a, b))
            return False
        if isinstance(a, (bool,)) or isinstance(b, bool):
            return a is b
        if isinstance(a, str) and isinstance(b, str):
            return type(a) is type(b) and a == b
        if isinstance(a, int) and isinstance(b, int):
            return type(a) is type(b) and a == b
        if isinstance(a, tuple) and isinstance(b, tuple):
            return a == () and b == ()
        return False

    def e_Compare(self, n, env):
        left = self.ev(n.left, env)
        for op, r in zip(n.ops, n.comparators):
            right = self.ev(r, env)
            res = self.compare(op, left, right)
            if len(n.ops) == 1:
                return res
            if not self.truth(res):
                return False
            left = right
        return True

    def compare(self, op, a, b):
        t = type(op)
        if t is ast.Eq:
            return self.eq(a, b)
        if t is ast.NotEq:
            return not self.eq(a, b)
        if t is ast.Is:
            return self.is_(a, b)
        if t is ast.IsNot:
            return not self.is_(a, b)
        if t is ast.In:
            return self.contains(b, a)
        if t is ast.NotIn:
            return not self.contains(b, a)
        return self.order(_ORD[t], a, b)

    def order(self, opname, a, b):
        a, b = self.force(a), self.force(b)
        if isinstance(a, AInst) and "enumval" in V._flags(a.cls):
            a = self.force(a.attrs["value"])
        if isinstance(b, AInst) and "enumval" in V._flags(b.cls):
            b = self.force(b.attrs["value"])
        if isinstance(a, AInst) and isinstance(b, AInst) and a.cls is self.lib.CMPKEY and b.cls is a.cls:
            return self.order(opname, self.call(a.attrs["fn"], [a.attrs["obj"], b.attrs["obj"]], {}), 0)
        if isinstance(a, AInst) and isinstance(b, AInst) and a.cls is b.cls and "order" in V._flags(a.cls):
            return self.order(opname, tuple(a.attrs[f] for f, _ in a.cls.fields), tuple(b.attrs[f] for f, _ in b.cls.fields))
        if isinstance(a, ASet) and isinstance(b, ASet):
            sa, sb = set(a.e), set(b.e)
            return getattr(operator, opname)(sa, sb)
        if _is_raw(a) and _is_raw(b):
            try:
                return bool(getattr(operator, opname)(a, b))
            except TypeError as e:
                self.throw("TypeError", str(e))
        ta, tb = _seq(a), _seq(b)
        if isinstance(a, tuple) and isinstance(b, tuple):
            for x, y in zip(a, b):
                if not self.eq(x, y):
                    return self.order(opname, x, y)
            return getattr(operator, opname)(len(a), len(b))
        for x, y, nm in ((a, b, opname), (b, a, {"lt": "gt", "gt": "lt", "le": "ge", "ge": "le"}[opname])):
            if isinstance(x, AInst):
                f = x.cls.lookup(f"__{nm}__")
                if isinstance(f, AFunc):
                    r = self.call(ABound(f, x), [y], {})
                    if r is NotImplemented:
                        continue
                    return self.truth(r)
                if "total_ordering" in V._flags(x.cls):
                    for base in ("lt", "le", "gt", "ge"):
                        f = x.cls.lookup(f"__{base}__")
                        if isinstance(f, AFunc):
                            r = self.truth(self.call(ABound(f, x), [y], {}))
                            same = self.eq(x, y)
                            lt = r if base == "lt" else r and not same if base == "le" else not r and not same if base == "gt" else not r
                            return {"lt": lt, "le": lt or same, "gt": not lt and not same, "ge": not lt}[nm]
        ka, kb = self.class_of(a), self.class_of(b)
        num = lambda k: k.issub(INT) or k.issub(FLOAT)
        if ka is not None and kb is not None:
            ok = (num(ka) and num(kb)) or (ka.issub(STR) and kb.issub(STR)) or (ka.issub(LIST) and kb.issub(LIST)) or (ka.module is not None and ka.module == kb.module)
            if not ok:
                self.throw("TypeError", f"'{opname}' not supported between instances of '{ka.name}' and '{kb.name}'")
        if isinstance(a, Sym) or isinstance(b, Sym) or isinstance(a, AStr) or isinstance(b, AStr):
            return self.order_sym(opname, a, b)
        for k in (ka, kb):
            if k is not None and k.kind == "ext" and k.module is not None:
                self.unmodelled(f"order of {k.name}")
                return bool(self.choose(2, ("order", k.name)))
        self.throw("TypeError", f"'{opname}' not supported")

    def order_sym(self, opname, a, b):
        h = self.hooks.get("order")
        if h:
            r = h(self, opname, a, b)
            if r is not None:
                return r

        def key(x):
            return ("s", id(x.core)) if isinstance(x, Sym) else ("c", x) if _is_raw(x) else ("o", id(x))
        ka, kb = key(a), key(b)
        self.keep.append((a, b))
        if not hasattr(self, "ordfacts"):
            self.ordfacts = {}
        # relation of (a,b): -1,0,1
        if ka == kb:
            rel = 0
        else:
            if (ka, kb) in self.ordfacts:
                rel = self.ordfacts[(ka, kb)]
            else:
                rel = self.derive_order(ka, kb)
                if rel is None:
                    rel = (-1, 0, 1)[self.choose(3, ("order", repr(a), repr(b)))]
                self.ordfacts[(ka, kb)] = rel
                self.ordfacts[(kb, ka)] = -rel
        return {"lt": rel < 0, "le": rel <= 0, "gt": rel > 0, "ge": rel >= 0}[opname]

    def derive_order(self, a, b):
        f = self.ordfacts
        mids = {y for (x, y) in f if x == a}
        for m in mids:
            r2 = f.get((m, b))
            if r2 is None:
                if m[0] == "c" and b[0] == "c":
                    try:
                        r2 = (m[1] > b[1]) - (m[1] < b[1])
                    except TypeError:
                        continue
                else:
                    continue
            r1 = f[(a, m)]
            if r1 == 0:
                return r2
            if r2 == 0 or r1 == r2:
                return r1
        return None

    def contains(self, c, x):
        c = self.force(c)
        if isinstance(c, ADict):
            return self.dict_get(c, x) is not MISSING
        if isinstance(c, ASet):
            xf = self.force(x)
            h = self.hk(xf)
            if h in c.e:
                return True
            if isinstance(xf, (Sym, AStr)) and not (isinstance(xf, Sym) and xf.core.distinct is not None):
                for y in list(c.e.values()):
                    if self.eq(xf, y):
                        return True
            else:
                for y in list(c.e.values()):
                    if isinstance(y, (Sym, AStr)) and self.eq(xf, y):
                        return True
            return False
        seq = _seq(c)
        if seq is not None:
            return any(self.eq(x, y) or self.force(x) is self.force(y) for y in list(seq))
        if isinstance(c, AIter) and getattr(c, "view", None) == "keys":
            return self.dict_get(c.d, x) is not MISSING
        if isinstance(c, AIter) or isinstance(c, AGen):
            return any(self.eq(x, y) for y in self.iter_values(c))
        x = self.force(x)
        if isinstance(c, str) and isinstance(x, str):
            return x in c
        if isinstance(c, (str, AStr)) or isinstance(c, Sym) and c.core.cls is not None and c.core.cls.issub(STR):
            if isinstance(x, (str, AStr, Sym)):
                kx = self.class_of(x)
                if kx is not None and not kx.issub(STR):
                    self.throw("TypeError", "'in <string>' requires string as left operand")
                if isinstance(x, str) and x == "":
                    return True
                if isinstance(c, AStr):
                    for p in c.parts:
                        if isinstance(p, str) and isinstance(x, str) and x in p:
                            return True
                        if p is x or isinstance(p, Sym) and isinstance(x, Sym) and p.core is x.core:
                            return True
                if isinstance(c, str) and c == "":
                    return not self.truth(x)
                r = self.lib.str_pred(self, "contains", c, x)
                if r is not None:
                    return r
                k = ("in", _fid(x), _fid(c))
                if k not in self.eqmemo:
                    self.eqmemo[k] = not self.choose(2, ("in", repr(x), repr(c)))
                    self.keep.append((x, c))
                return self.eqmemo[k]
            self.throw("TypeError", "'in <string>' requires string as left operand")
        if isinstance(c, Sym):
            k = c.core.cls
            if k is not None and k.issub(DICT) or c.as_dict is not None:
                return self.dict_get(self.sym_dict(c), x) is not MISSING
            if k is not None and (k.issub(LIST) or k.issub(TUPLE)) or c.as_list is not None:
                return any(self.eq(x, y) for y in self.sym_list(c).items)
            if k is not None and (k.issub(INT) or k.issub(FLOAT) or k is NONE):
                self.throw("TypeError", f"argument of type '{k.name}' is not iterable")
            if isinstance(x, str):
                return self.dict_get(self.sym_dict(c), x) is not MISSING
            kk = ("in", _fid(x), _fid(c))
            if kk not in self.eqmemo:
                self.eqmemo[kk] = not self.choose(2, ("in", repr(x), repr(c)))
            return self.eqmemo[kk]
        if isinstance(c, AInst):
            m = c.cls.lookup("__contains__")
            if m is not MISSING:
                return self.truth(self.call(ABound(m, c) if isinstance(m, AFunc) else m, [x] if isinstance(m, AFunc) else [c, x], {}))
            if c.cls.lookup("__iter__") is not MISSING or "nt" in V._flags(c.cls):
                return any(self.eq(x, y) for y in self.iter_values(c))
        if isinstance(c, AClass) and "enum" in V._flags(c):
            return any(self.eq(x, m) for m in c.ns["__members__"])
        self.throw("TypeError", f"argument of type '{self.class_of(c).name}' is not iterable")

    def e_JoinedStr(self, n, env):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                parts.append(self.e_FormattedValue(v, env))
        return self.mkstr(parts)

    def e_FormattedValue(self, n, env):
        x = self.ev(n.value, env)
        spec = ""
        if n.format_spec is not None:
            spec = self.e_JoinedStr(n.format_spec, env)
            if not isinstance(spec, str):
                spec = ""
        return self.to_str(x, spec, n.conversion)

    def e_NamedExpr(self, n, env):
        v = self.ev(n.value, env)
        self.assign_name(n.target.id, v, env)
        return v

    def e_Starred(self, n, env):
        raise Abort("starred")

    # comprehensions
    def comp_iter(self, gens, env, emit):
        def rec(i, e):
            if i == len(gens):
                yield from emit(e)
                return
            g = gens[i]
            it = first if i == 0 else self.ev(g.iter, e)
            for v in self.iter_values(it):
                ce = Env("comp", e, env.module)
                for nm in _names(g.target):
                    ce.vars[nm] = None
                self.comp_assign(g.target, v, ce)
                if all(self.truth(self.ev(c, ce)) for c in g.ifs):
                    yield from rec(i + 1, ce)
        first = self.ev(gens[0].iter, env)
        return rec(0, env)

    def comp_assign(self, t, v, ce):
        if isinstance(t, ast.Name):
            ce.vars[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            vf = self.force(v)
            if isinstance(vf, Sym) and vf.core.cls is None and vf.as_list is None and vf.core.length is None:
                vf.core.length = len(t.elts)
                vf.core.truth = True
            vals = self.listof(vf)
            star = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if star:
                i = star[0]
                after = len(t.elts) - i - 1
                for x, y in zip(t.elts[:i], vals[:i]):
                    self.comp_assign(x, y, ce)
                self.comp_assign(t.elts[i].value, AList(vals[i: len(vals) - after]), ce)
                for x, y in zip(t.elts[i + 1:], vals[len(vals) - after:]):
                    self.comp_assign(x, y, ce)
                return
            if len(vals) != len(t.elts):
                self.throw("ValueError", "wrong number of values to unpack")
            for x, y in zip(t.elts, vals):
                self.comp_assign(x, y, ce)
        else:
            self.assign(t, v, ce)

    def e_ListComp(self, n, env):
        def emit(e):
            yield self.ev(n.elt, e)
        return AList(list(self.comp_iter(n.generators, env, emit)))

    def e_SetComp(self, n, env):
        s = ASet()

        def emit(e):
            yield self.ev(n.elt, e)
        for x in self.comp_iter(n.generators, env, emit):
            s.e.setdefault(self.hk(x), self.force(x))
        return s

    def e_DictComp(self, n, env):
        d = ADict()

        def emit(e):
            k = self.ev(n.key, e)
            yield (k, self.ev(n.value, e))
        for k, v in self.comp_iter(n.generators, env, emit):
            self.dict_set(d, k, v)
        return d

    def e_GeneratorExp(self, n, env):
        def emit(e):
            yield self.ev(n.elt, e)
        return AIter(self.comp_iter(n.generators, env, emit))


class Union_:
    def __init__(self, members):
        self.members = members

    def __deepcopy__(self, memo):
        return self


def func_info_any(fn):
    if isinstance(fn.node, ast.Lambda):
        r = _info_cache.get(id(fn.node))
        if r is not None and r[0] is fn.node:
            return r[1]
        info = FuncInfo()
        a = fn.node.args
        ps = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        if a.vararg:
            ps.append(a.vararg.arg)
        if a.kwarg:
            ps.append(a.kwarg.arg)
        info.params = ps
        info.locals = set(ps)
        for x in ast.walk(fn.node.body):
            if isinstance(x, ast.NamedExpr):
                info.locals.add(x.target.id)
        info.globals = set()
        info.nonlocals = set()
        info.is_gen = False
        info.is_async = False
        _info_cache[id(fn.node)] = (fn.node, info)
        return info
    return func_info(fn.node)


def _names(t):
    return [x.id for x in ast.walk(t) if isinstance(x, ast.Name)]


def _plain(v):
    for c, t in ((CStr, str), (CInt, int), (CUint, int), (CDouble, float)):
        if isinstance(v, c):
            return t(v)
    if isinstance(v, CBool):
        return bool(v)
    return v


def _fid(x):
    if isinstance(x, Sym):
        return id(x.core)
    if _is_raw(x):
        return ("c", x)
    return id(x)


def _is_raw(v):
    return v is None or isinstance(v, (bool, int, float, str, bytes)) or (isinstance(v, tuple) and all(_is_raw(x) for x in v)) or v is Ellipsis


def _celish(v):
    t = type(v)
    return t is V.CInt or t is V.CDouble or t is V.CUint or (t is AList and v.cls is V.C_LIST) or (t is ADict and v.cls.issub(V.C_MAP))


def _textual(v):
    return isinstance(v, (str, AStr)) or isinstance(v, Sym) and _strlike(v)


def _strlike(s):
    return s.core.cls is not None and s.core.cls.issub(STR)


def _seq(v):
    if isinstance(v, tuple):
        return v
    if isinstance(v, AList):
        return v.items
    if isinstance(v, AInst) and v.cls.fields is not None and "nt" in V._flags(v.cls):
        return [v.attrs[f] for f, _ in v.cls.fields]
    return None


def _maybe_equal_cls(a, b):
    if a is None or b is None:
        return True
    if a.issub(b) or b.issub(a):
        return True
    num = (INT, FLOAT)
    if any(a.issub(x) for x in num) and any(b.issub(x) for x in num):
        return True
    for base in (STR, LIST, DICT, BYTES):
        if a.issub(base) and b.issub(base):
            return True
    return False


def _coerce_const(b, cls):
    if cls is None:
        return b
    for k, t in ((C_STRING, CStr), (C_INT, CInt), (C_BOOL, CBool), (C_DOUBLE, CDouble), (C_UINT, CUint)):
        if cls is k:
            return t(b)
    return b


def _always_truthy(cls):
    if cls in (STR, INT, FLOAT, BOOL, BYTES, LIST, TUPLE, DICT, SET, FROZENSET, NONE, OBJECT):
        return False
    for k in (STR, INT, FLOAT, BYTES, LIST, TUPLE, DICT, SET, FROZENSET, NONE):
        if cls.issub(k):
            if cls.issub(TUPLE) and cls.fields:
                return True
            return False
    if cls.name in _ABC or cls is DATETIME:
        return cls is DATETIME
    if cls.issub(TIMEDELTA):
        return False
    if cls.lookup("__bool__") is not MISSING or cls.lookup("__len__") is not MISSING:
        return False
    return True


def clone(v, memo):
    """Structural copy of the mutable part of an abstract value (used to reset module state per path)."""
    if isinstance(v, tuple):
        return tuple(clone(x, memo) for x in v)
    if not isinstance(v, Heap):
        return v
    if id(v) in memo:
        return memo[id(v)]
    if isinstance(v, AList):
        n = AList((), v.cls)
        memo[id(v)] = n
        n.items = [clone(x, memo) for x in v.items]
    elif isinstance(v, ADict):
        n = ADict(None, v.cls, v.open)
        memo[id(v)] = n
        n.absent = set(v.absent)
        n.default_factory = v.default_factory
        for h, (k, x) in v.e.items():
            k2 = clone(k, memo)
            n.e[h if k2 is k else hkey(k2)] = [k2, clone(x, memo)]
    elif isinstance(v, ASet):
        n = ASet((), v.cls)
        memo[id(v)] = n
        n.e = {h: clone(x, memo) for h, x in v.e.items()}
    elif isinstance(v, AInst):
        if v.cls.name in ("Tree", "Token"):
            return v
        n = AInst(v.cls)
        memo[id(v)] = n
        n.attrs = {k: clone(x, memo) for k, x in v.attrs.items()}
    else:
        return v
    n.watch = v.watch
    return n


_HOSTCLS = {bool: BOOL, int: INT, float: FLOAT, str: STR, bytes: BYTES, tuple: TUPLE, CStr: C_STRING, CInt: C_INT,
            CUint: C_UINT, CBool: C_BOOL, CDouble: C_DOUBLE, CBytes: C_BYTES, type(Ellipsis): ELLIPSIS, complex: COMPLEX,
            type(NotImplemented): NOTIMPL, slice: OBJECT}
_ABC = {
    "Mapping": (DICT,), "MutableMapping": (DICT,), "Sequence": (LIST, TUPLE, STR, BYTES), "MutableSequence": (LIST,),
    "Iterable": (LIST, TUPLE, STR, BYTES, DICT, SET, FROZENSET, ITERATOR), "Collection": (LIST, TUPLE, STR, DICT, SET, FROZENSET),
    "Set": (SET, FROZENSET), "AbstractSet": (SET, FROZENSET), "Hashable": (STR, INT, FLOAT, TUPLE, BYTES),
    "Iterator": (ITERATOR,), "Number": (INT, FLOAT), "Sized": (LIST, TUPLE, STR, DICT, SET), "Container": (LIST, TUPLE, STR, DICT, SET),
    "Real": (INT, FLOAT), "Integral": (INT,), "Dict": (DICT,), "List": (LIST,), "Tuple": (TUPLE,), "Callable": (FUNCTION,),
}
EXACT = {STR, INT, FLOAT, BOOL, BYTES, LIST, TUPLE, DICT, SET, NONE, C_STRING, C_INT, C_UINT, C_BOOL, C_DOUBLE, C_BYTES, C_LIST,
         C_MAP, C_NULL, C_TIMESTAMP, C_DURATION}
_SELF_MATCH = {BOOL, BYTES, DICT, FLOAT, FROZENSET, INT, LIST, SET, STR, TUPLE}
_SELF_MATCH = {k for k in _SELF_MATCH}
_BIN = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul, ast.Div: operator.truediv, ast.FloorDiv: operator.floordiv,
        ast.Mod: operator.mod, ast.Pow: operator.pow, ast.BitOr: operator.or_, ast.BitAnd: operator.and_, ast.BitXor: operator.xor,
        ast.LShift: operator.lshift, ast.RShift: operator.rshift, ast.MatMult: operator.matmul}
_DUNDER = {ast.Add: "add", ast.Sub: "sub", ast.Mult: "mul", ast.Div: "truediv", ast.BitOr: "or", ast.BitAnd: "and", ast.Mod: "mod", ast.FloorDiv: "floordiv"}
_ORD = {ast.Lt: "lt", ast.LtE: "le", ast.Gt: "gt", ast.GtE: "ge"}

STMT = {}
EXPR = {}
for _k, _f in list(vars(Interp).items()):
    if _k.startswith("s_"):
        STMT[getattr(ast, _k[2:])] = _f
    elif _k.startswith("e_"):
        EXPR[getattr(ast, _k[2:])] = _f
STMT[ast.AsyncFunctionDef] = Interp.s_FunctionDef
STMT[ast.AsyncWith] = Interp.s_With
STMT[ast.Nonlocal] = Interp.s_Global
