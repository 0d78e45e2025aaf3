"""Summaries of Python built-ins and of the external libraries the repository uses.

The repository's own code is always interpreted from its syntax trees; everything it calls outside itself
is described here.  A name without a summary evaluates to an opaque value and marks the path imprecise.
"""
import importlib
import ast
import re as _re

from .values import *
from . import values as V
from .interp import (AIter, Union_, _is_raw, _plain, _seq, _textual, _strlike, _HOSTCLS, _names, clone, Env, func_info_any)


# --------------------------------------------------------------------------- helpers
class AView(AIter):
    def __init__(self, ip, d, view):
        self.ip, self.d, self.view = ip, d, view

    cls = DICTVIEW

    @property
    def gen(self):
        ip, d = self.ip, self.d

        def run():
            n = len(d.e)
            items = ip.dict_items(d)
            n = len(d.e)
            for k, v in items:
                if len(d.e) != n:
                    ip.throw("RuntimeError", "dictionary changed size during iteration")
                yield k if self.view == "keys" else v if self.view == "values" else (k, v)
        return run()


class Tok(str):
    """Terminal of a CEL parse tree."""
    type = ""


TOKEN = AClass("Token", [STR], module="lark.lexer")
_HOSTCLS[Tok] = TOKEN


def tok(type_, text):
    t = Tok(text)
    t.type = type_
    return t


def bi(name):
    def deco(f):
        BUILTINS[name] = ABuiltin(name, f)
        return f
    return deco


BUILTINS = {}
for _k, _c in list(EXC.items()):
    BUILTINS[_k] = _c
BUILTINS.update({
    "object": OBJECT, "type": TYPE, "int": INT, "bool": BOOL, "float": FLOAT, "str": STR, "bytes": BYTES, "list": LIST,
    "tuple": TUPLE, "dict": DICT, "set": SET, "frozenset": FROZENSET, "complex": COMPLEX,
    "NotImplemented": NotImplemented, "Ellipsis": Ellipsis, "None": None, "True": True, "False": False, "__name__": "__main__",
    "__debug__": True,
})


def args_of(ip, args, kwargs, names, defaults=()):
    out = dict(zip(names, args))
    out.update(kwargs)
    dn = names[len(names) - len(defaults):]
    for n, d in zip(dn, defaults):
        out.setdefault(n, d)
    for n in names:
        if n not in out:
            ip.throw("TypeError", f"missing argument {n}")
    return [out[n] for n in names]


@bi("len")
def b_len(ip, args, kw):
    v = ip.force(args[0])
    if isinstance(v, (str, bytes, tuple)):
        return len(v)
    if isinstance(v, AList):
        return len(v.items)
    if isinstance(v, ADict):
        return len(ip.dict_items(v))
    if isinstance(v, ASet):
        return len(v.e)
    if isinstance(v, AView):
        return len(ip.dict_items(v.d))
    if isinstance(v, Sym):
        k = v.core.cls
        if k is not None and k.issub(DICT):
            return len(ip.dict_items(ip.sym_dict(v)))
        if k is not None and (k.issub(LIST) or k.issub(TUPLE)):
            return len(ip.sym_list(v).items)
        if k is not None and k.issub(STR):
            if not ip.truth(v):
                return 0
            s = ip.memo_sym(v, ("len",), f"len({v.name})", INT, True)
            return s
        if k is not None:
            ip.throw("TypeError", f"object of type '{k.name}' has no len()")
        return ip.memo_sym(v, ("len",), f"len({v.name})", INT)
    if isinstance(v, AStr):
        return ip.fresh("len", INT, True)
    if isinstance(v, AInst):
        m = v.cls.lookup("__len__")
        if m is not MISSING:
            return ip.call(ABound(m, v), [], {}) if isinstance(m, AFunc) else m.fn(ip, [v], {})
        s = _seq(v)
        if s is not None:
            return len(s)
    ip.throw("TypeError", f"object of type '{ip.class_of(v).name}' has no len()")


@bi("isinstance")
def b_isinstance(ip, args, kw):
    return ip.isinstance_(args[0], args[1])


@bi("issubclass")
def b_issubclass(ip, args, kw):
    c = ip.force(args[0])
    ks = ip.force(args[1])
    ks = ks if isinstance(ks, tuple) else ks.members if isinstance(ks, Union_) else (ks,)
    return isinstance(c, AClass) and any(isinstance(ip.force(k), AClass) and c.issub(ip.force(k)) for k in ks)


@bi("print")
def b_print(ip, args, kw):
    return None


@bi("range")
def b_range(ip, args, kw):
    vs = [ip.force(a) for a in args]
    if all(isinstance(a, int) for a in vs):
        r = range(*vs)
        if len(r) > 500:
            raise Abort("range bound")
        l = AList(list(r))
        return l
    n = vs[-1] if len(vs) < 3 else vs[1]
    return AList([ip.fresh("i", INT) for _ in range(ip.choose(3, ("range",)))])


@bi("enumerate")
def b_enumerate(ip, args, kw):
    it, start = args_of(ip, args, kw, ["iterable", "start"], (0,))

    def gen():
        i = ip.force(start)
        for x in ip.iter_values(it):
            yield (i, x)
            i += 1
    return AIter(gen())


@bi("zip")
def b_zip(ip, args, kw):
    strict = ip.force(kw.get("strict", False))
    cols = [ip.iter_values(a) for a in args]

    def gen():
        while True:
            row = []
            for i, c in enumerate(cols):
                try:
                    row.append(next(c))
                except StopIteration:
                    if strict and (i > 0 or any(next(c2, MISSING) is not MISSING for c2 in cols[1:])):
                        ip.throw("ValueError", "zip() arguments have different lengths")
                    return
            if not row:
                return
            yield tuple(row)
    return AIter(gen())


@bi("map")
def b_map(ip, args, kw):
    def gen():
        for row in b_zip(ip, args[1:], {}).gen:
            yield ip.call(args[0], list(row), {})
    return AIter(gen())


@bi("filter")
def b_filter(ip, args, kw):
    f = ip.force(args[0])

    def gen():
        for x in ip.iter_values(args[1]):
            if ip.truth(x if f is None else ip.call(f, [x], {})):
                yield x
    return AIter(gen())


@bi("reversed")
def b_reversed(ip, args, kw):
    vals = ip.listof(args[0])

    def gen():
        yield from reversed(vals)
    return AIter(gen())


def sort_list(ip, items, key=None, reverse=False):
    import functools
    key = ip.force(key)
    pairs = [(x if key is None else ip.call(key, [x], {}), x) for x in items]

    def cmp(a, b):
        if ip.order("lt", a[0], b[0]):
            return -1
        if ip.order("lt", b[0], a[0]):
            return 1
        return 0
    pairs = sorted(pairs, key=functools.cmp_to_key(cmp), reverse=bool(ip.truth(reverse)))
    return [x for _, x in pairs]


@bi("sorted")
def b_sorted(ip, args, kw):
    return AList(sort_list(ip, ip.listof(args[0]), kw.get("key"), kw.get("reverse", False)))


def _minmax(op):
    def f(ip, args, kw):
        vals = ip.listof(args[0]) if len(args) == 1 else list(args)
        key = ip.force(kw.get("key"))
        if not vals:
            if "default" in kw:
                return kw["default"]
            ip.throw("ValueError", "empty sequence")
        best = vals[0]
        bk = ip.call(key, [best], {}) if key is not None else best
        for v in vals[1:]:
            k = ip.call(key, [v], {}) if key is not None else v
            if ip.order(op, k, bk):
                best, bk = v, k
        return ip.force(best) if isinstance(best, Lazy) else best
    return f


BUILTINS["min"] = ABuiltin("min", _minmax("lt"))
BUILTINS["max"] = ABuiltin("max", _minmax("gt"))


@bi("sum")
def b_sum(ip, args, kw):
    acc = args[1] if len(args) > 1 else kw.get("start", 0)
    for x in ip.iter_values(args[0]):
        acc = ip.binop(ast.Add(), acc, x)
    return acc


@bi("any")
def b_any(ip, args, kw):
    for x in ip.iter_values(args[0]):
        if ip.truth(x):
            return True
    return False


@bi("all")
def b_all(ip, args, kw):
    for x in ip.iter_values(args[0]):
        if not ip.truth(x):
            return False
    return True


@bi("getattr")
def b_getattr(ip, args, kw):
    try:
        return ip.getattr_(args[0], ip.force(args[1]))
    except AExc as e:
        if len(args) > 2 and e.value.cls.issub(EXC["AttributeError"]):
            return args[2]
        raise


@bi("setattr")
def b_setattr(ip, args, kw):
    ip.setattr_(args[0], ip.force(args[1]), args[2])


@bi("delattr")
def b_delattr(ip, args, kw):
    o = ip.force(args[0])
    if hasattr(o, "attrs") and args[1] in o.attrs:
        del o.attrs[args[1]]
    else:
        ip.throw("AttributeError", args[1])


@bi("hasattr")
def b_hasattr(ip, args, kw):
    try:
        ip.getattr_(args[0], ip.force(args[1]))
        return True
    except AExc as e:
        if e.value.cls.issub(EXC["AttributeError"]):
            return False
        raise


@bi("callable")
def b_callable(ip, args, kw):
    v = ip.force(args[0])
    return isinstance(v, (AFunc, ABuiltin, ABound, AClass)) or isinstance(v, AInst) and v.cls.lookup("__call__") is not MISSING


@bi("id")
def b_id(ip, args, kw):
    v = ip.force(args[0])
    ip.keep.append(v)
    return id(v)


@bi("hash")
def b_hash(ip, args, kw):
    return hash(str(ip.hk(args[0])))


@bi("repr")
def b_repr(ip, args, kw):
    return ip.to_str(args[0], "", 114)


@bi("ascii")
def b_ascii(ip, args, kw):
    return ip.to_str(args[0], "", 114)


@bi("format")
def b_format(ip, args, kw):
    return ip.to_str(args[0], *(args[1:]))


def host_fn(name, f):
    def g(ip, args, kw):
        vs = [ip.force(a) for a in args]
        if all(_is_raw(a) for a in vs):
            try:
                return f(*vs)
            except Exception as e:
                ip.host_exc(e)
        s = next(a for a in vs if not _is_raw(a))
        if isinstance(s, Sym):
            return ip.memo_sym(s, ("fn", name, repr(vs)), f"{name}({s.name})")
        return ip.fresh(name)
    BUILTINS[name] = ABuiltin(name, g)


for _n, _f in (("abs", abs), ("round", round), ("divmod", divmod), ("chr", chr), ("ord", ord), ("pow", pow), ("hex", hex), ("bin", bin), ("oct", oct)):
    host_fn(_n, _f)


@bi("iter")
def b_iter(ip, args, kw):
    v = ip.force(args[0])
    if isinstance(v, AIter) and not isinstance(v, AView):
        return v
    if isinstance(v, AGen):
        return v
    return AIter(ip.iter_values(v))


@bi("next")
def b_next(ip, args, kw):
    v = ip.force(args[0])
    if isinstance(v, AGen):
        r = ip.gen_next(v)
        if r is not None:
            return r[0]
        if len(args) > 1:
            return args[1]
        ip.throw("StopIteration")
    if isinstance(v, AIter) and not isinstance(v, AView):
        try:
            return next(v.gen)
        except StopIteration:
            if len(args) > 1:
                return args[1]
            ip.throw("StopIteration")
    if isinstance(v, AInst) and isinstance(v.cls.lookup("__next__"), AFunc):
        return ip.call(ABound(v.cls.lookup("__next__"), v), [], {})
    ip.throw("TypeError", f"'{ip.class_of(v).name}' object is not an iterator")


@bi("vars")
def b_vars(ip, args, kw):
    return ip.getattr_(args[0], "__dict__")


@bi("globals")
def b_globals(ip, args, kw):
    m = ip.modules[ip.frames[-1].env.module]
    return ADict(dict(m.globals))


@bi("property")
def b_property(ip, args, kw):
    return AProperty(args[0] if args else kw.get("fget"), args[1] if len(args) > 1 else kw.get("fset"))


@bi("staticmethod")
def b_static(ip, args, kw):
    return AStatic(args[0])


@bi("classmethod")
def b_classm(ip, args, kw):
    return AClassMethod(args[0])


@bi("open")
def b_open(ip, args, kw):
    p = ip.force(args[0])
    p = p.attrs.get("path", "?") if isinstance(p, AInst) else p
    return AInst(FILE, {"path": p})


@bi("super")
def b_super(ip, args, kw):
    raise Abort("super with arguments")


def make_super(ip, env, frame):
    fn = frame.func
    cls = fn.cls
    if cls is None:
        raise Abort("super outside a method")
    params = func_info_any(fn).params
    e = env
    while e is not None and not (e.kind == "function" and params and params[0] in e.vars):
        e = e.parent
    return AInst(SUPER, {"__self__": e.vars[params[0]], "__cls__": cls})


SUPER = AClass("super", [OBJECT])
FILE = AClass("TextIOWrapper", [OBJECT], module="io")


# --------------------------------------------------------------------------- construction
def construct(ip, cls, args, kw):
    f = CONSTRUCT.get(cls)
    if f is not None:
        return f(ip, cls, args, kw)
    fl = V._flags(cls)
    if "typeddict" in fl:
        d = ADict(cls=DICT)
        if args:
            dict_update(ip, d, args[0])
        for k, v in kw.items():
            ip.dict_set(d, k, v)
        return d
    if "enum" in fl and cls.ns.get("__members__"):
        ms = cls.lookup("_missing_")
        for m in cls.ns["__members__"]:
            if ip.eq(m.attrs["value"], args[0]) or ip.force(args[0]) is m:
                return m
        if ms is not MISSING:
            r = ip.call(ip.getattr_(cls, "_missing_"), [args[0]], {})
            if r is not None:
                return r
        ip.throw("ValueError", ip.mkstr([ip.to_str(args[0], "", 114), f" is not a valid {cls.name}"]))
    if cls.issub(APIOBJECT):
        return api_object(ip, cls, args, kw)
    for base in cls.mro:
        f = CONSTRUCT.get(base)
        if f is not None and base in (DICT, LIST, SET, STR, INT, TUPLE) and cls.kind == "repo" and not isinstance(cls.lookup("__init__"), AFunc) and not isinstance(cls.lookup("__new__"), AFunc):
            if cls.fields is not None:
                return MISSING
            v = f(ip, base, args, kw)
            if isinstance(v, (ADict, AList, ASet)):
                v.cls = cls
                return v
            raise Abort(f"subclass of builtin {base.name}")
    return MISSING


CONSTRUCT = {}


def con(*classes):
    def deco(f):
        for c in classes:
            CONSTRUCT[c] = f
        return f
    return deco


@con(OBJECT)
def c_object(ip, cls, args, kw):
    return AInst(OBJECT)


@con(TYPE)
def c_type(ip, cls, args, kw):
    if len(args) == 1:
        v = ip.force(args[0])
        k = ip.class_of(v)
        if k is None:
            return ip.memo_sym(v, ("type",), f"type({v.name})")
        return k
    name, bases, ns = args[:3]
    d = {str(ip.force(k)): v for k, v in ip.dict_items(ip.force(ns))}
    return AClass(ip.force(name), list(ip.force(bases)) or [OBJECT], d, module=None, kind="repo")


def parse_num(ip, cls, v, host, base=10):
    try:
        return host(_plain(v)) if base == 10 else host(_plain(v), base)
    except (ValueError, TypeError, OverflowError) as e:
        ip.host_exc(e)


@con(INT, C_INT, C_UINT)
def c_int(ip, cls, args, kw):
    wrap = {INT: int, C_INT: CInt, C_UINT: CUint}[cls]
    if not args:
        return wrap(0)
    v = ip.force(args[0])
    if isinstance(v, AStr) and len(v.parts) == 1:
        v = v.parts[0]
    if isinstance(v, AInst) and "enumval" in V._flags(v.cls):
        v = ip.force(v.attrs["value"])
    if isinstance(v, AInst):
        for n in ("__int__", "__index__"):
            f = v.cls.lookup(n)
            if isinstance(f, AFunc):
                v = ip.force(ip.call(ABound(f, v), [], {}))
                break
    if _is_raw(v):
        if v is None:
            ip.throw("TypeError", "int() argument must be a string, a bytes-like object or a real number, not 'NoneType'")
        return wrap(parse_num(ip, cls, v, int, *[ip.force(a) for a in args[1:2]]))
    if isinstance(v, Sym):
        k = v.core.cls
        h = ip.hooks.get("to_int")
        if h:
            r = h(ip, v)
            if r is not None:
                return r
        if k is not None and (k.issub(INT) or k.issub(FLOAT)):
            if k is cls:
                return v
            return ip.memo_sym(v, ("as", cls.name), f"{cls.name}({v.name})", cls, v.core.truth if k.issub(INT) else None)
        if k is not None and not k.issub(STR) and not k.issub(BYTES):
            ip.throw("TypeError", f"int() argument must be a string or a number, not '{k.name}'")
        if ip.choose(2, ("int()", v.name)):
            ip.throw("ValueError", "invalid literal for int()")
        return ip.memo_sym(v, ("as", cls.name), f"{cls.name}({v.name})", cls)
    if isinstance(v, AStr):
        if ip.choose(2, ("int()", repr(v))):
            ip.throw("ValueError", "invalid literal for int()")
        return ip.fresh("int", cls)
    ip.throw("TypeError", f"int() argument must be a string or a number, not '{ip.class_of(v).name}'")


@con(FLOAT, C_DOUBLE)
def c_float(ip, cls, args, kw):
    wrap = CDouble if cls is C_DOUBLE else float
    if not args:
        return wrap(0.0)
    v = ip.force(args[0])
    if isinstance(v, AStr) and len(v.parts) == 1:
        v = v.parts[0]
    if _is_raw(v):
        if v is None:
            ip.throw("TypeError", "float() argument must be a string or a real number, not 'NoneType'")
        return wrap(parse_num(ip, cls, v, float))
    if isinstance(v, Sym):
        k = v.core.cls
        h = ip.hooks.get("to_float")
        if h:
            r = h(ip, v)
            if r is not None:
                return r
        if k is not None and (k.issub(INT) or k.issub(FLOAT)):
            return v if k is cls else ip.memo_sym(v, ("as", cls.name), f"{cls.name}({v.name})", cls, v.core.truth)
        if k is not None and not k.issub(STR):
            ip.throw("TypeError", "float() argument must be a string or a real number")
    if isinstance(v, (Sym, AStr)):
        if ip.choose(2, ("float()", repr(v))):
            ip.throw("ValueError", "could not convert string to float")
        return ip.fresh("float", cls)
    ip.throw("TypeError", f"float() argument must be a string or a real number, not '{ip.class_of(v).name}'")


@con(BOOL)
def c_bool(ip, cls, args, kw):
    return ip.truth(args[0]) if args else False


@con(C_BOOL)
def c_cbool(ip, cls, args, kw):
    if not args:
        return CBool(0)
    v = ip.force(args[0])
    if isinstance(v, str):
        return CBool(v in ("true", "True", "1"))
    return CBool(1 if ip.truth(v) else 0)


@con(STR)
def c_str(ip, cls, args, kw):
    if not args and "object" not in kw:
        return ""
    if len(args) > 1:
        v = ip.force(args[0])
        return v.decode() if isinstance(v, bytes) else ip.fresh("str", STR)
    v = ip.force(args[0] if args else kw["object"])
    if isinstance(v, Sym) and v.core.cls is STR:
        return v
    return plain_str(ip, ip.to_str(v))


def plain_str(ip, r):
    if isinstance(r, AStr) and len(r.parts) == 1 and isinstance(r.parts[0], Sym) and _strlike(r.parts[0]):
        s = r.parts[0]
        if s.core.cls is STR:
            return s
    return r


@con(C_STRING)
def c_cstring(ip, cls, args, kw):
    if not args:
        return CStr("")
    v = ip.force(args[0])
    if isinstance(v, bytes):
        try:
            return CStr(v.decode("utf-8"))
        except Exception as e:
            ip.host_exc(e)
    if isinstance(v, Sym) and v.core.cls is not None and v.core.cls.issub(STR):
        if v.core.cls is C_STRING:
            return v
        return ip.memo_sym(v, ("as", "StringType"), v.name, C_STRING, v.core.truth)
    r = ip.to_str(v)
    if isinstance(r, str):
        return CStr(r)
    s = r.parts[0] if isinstance(r, AStr) and len(r.parts) == 1 and isinstance(r.parts[0], Sym) else None
    if s is not None:
        return ip.memo_sym(s, ("as", "StringType"), f"str({s.name})", C_STRING)
    f = ip.fresh("celstr", C_STRING, ip.truth(r))
    f.core.op = ("str", r)
    return f


@con(BYTES, C_BYTES)
def c_bytes(ip, cls, args, kw):
    v = ip.force(args[0]) if args else b""
    if isinstance(v, bytes):
        return CBytes(v) if cls is C_BYTES else bytes(v)
    if isinstance(v, str) and len(args) > 1:
        return v.encode()
    return ip.fresh("bytes", cls)


@con(LIST, C_LIST)
def c_list(ip, cls, args, kw):
    return AList(ip.listof(args[0]) if args else [], cls)


@con(TUPLE)
def c_tuple(ip, cls, args, kw):
    return tuple(ip.listof(args[0])) if args else ()


@con(DICT, C_MAP, C_MESSAGE, ORDEREDDICT)
def c_dict(ip, cls, args, kw):
    d = ADict(cls=cls)
    if args:
        if cls is C_MAP and ip.force(args[0]) is None:
            return d
        dict_update(ip, d, args[0])
    for k, v in kw.items():
        ip.dict_set(d, k, v)
    return d


@con(DEFAULTDICT)
def c_defaultdict(ip, cls, args, kw):
    d = ADict(cls=DEFAULTDICT)
    d.default_factory = ip.force(args[0]) if args else None
    if len(args) > 1:
        dict_update(ip, d, args[1])
    for k, v in kw.items():
        ip.dict_set(d, k, v)
    return d


@con(COUNTER)
def c_counter(ip, cls, args, kw):
    d = ADict(cls=COUNTER)
    d.default_factory = ABuiltin("zero", lambda ip, a, k: 0)
    if args:
        for x in ip.iter_values(args[0]):
            ip.dict_set(d, x, ip.binop(ast.Add(), ip.dict_get(d, x, 0), 1))
    return d


@con(DEQUE)
def c_deque(ip, cls, args, kw):
    return AList(ip.listof(args[0]) if args else [], DEQUE)


@con(SET, FROZENSET)
def c_set(ip, cls, args, kw):
    s = ASet(cls=cls)
    if args:
        for x in ip.iter_values(args[0]):
            set_add(ip, s, x)
    return s


def set_add(ip, s, x):
    x = ip.force(x)
    h = ip.hk(x)
    if h in s.e:
        return
    if isinstance(x, Sym) and x.core.distinct is None or isinstance(x, AStr):
        for y in s.e.values():
            if ip.eq(x, y):
                return
    else:
        for y in s.e.values():
            if isinstance(y, (Sym, AStr)) and ip.eq(x, y):
                return
    s.e[h] = x


@con(C_NULL)
def c_null(ip, cls, args, kw):
    return AInst(C_NULL)


@con(C_TIMESTAMP, C_DURATION, DATETIME, TIMEDELTA)
def c_time(ip, cls, args, kw):
    return Sym(cls.name, cls, True if cls in (C_TIMESTAMP, DATETIME) else None)


@con(COMPLEX)
def c_complex(ip, cls, args, kw):
    return complex(*[ip.force(a) for a in args])


def dict_update(ip, d, other):
    other = ip.force(other)
    if isinstance(other, Sym) and (other.core.cls is None or other.core.cls.issub(DICT)):
        other = ip.sym_dict(other)
    if isinstance(other, ADict):
        if other.open:
            for k, v in ip.dict_items(other):
                ip.dict_set(d, k, v)
            if not other.extra and getattr(other, "enum", None) is None:
                d.open = chain_open(d, other)
            return
        for h in list(other.e):
            k, v = other.e[h]
            if isinstance(v, Lazy) and v.chosen is None and any(o[1] is MISSING for o in v.options):
                v = ip.present(other, k)
                if v is MISSING:
                    continue
            elif isinstance(v, Lazy) and v.chosen is not None and v.value is MISSING:
                continue
            ip.dict_set(d, k, v)
        return
    if isinstance(other, AInst) and isinstance(other.cls.lookup("keys"), AFunc):
        for k in ip.iter_values(ip.call(ip.getattr_(other, "keys"), [], {})):
            ip.dict_set(d, k, ip.getitem(other, k))
        return
    if other is None:
        ip.throw("TypeError", "'NoneType' object is not iterable")
    for pair in ip.iter_values(other):
        kv = ip.listof(pair)
        if len(kv) != 2:
            ip.throw("ValueError", f"dictionary update sequence element has length {len(kv)}; 2 is required")
        ip.dict_set(d, kv[0], kv[1])


def chain_open(d, other):
    prev = d.open

    def opener(ip, dd, key, h):
        v = ip.dict_get(other, key)
        if v is not MISSING:
            return v
        return prev(ip, dd, key, h) if prev else MISSING
    return opener


# --------------------------------------------------------------------------- methods on values
HOST_TYPES = {}


def host_type(c):
    """The real type a modelled class stands for (only asked which attributes it has)."""
    if not HOST_TYPES:
        import asyncio
        import collections
        import contextlib
        import logging
        import types
        HOST_TYPES.update({DICT: dict, LIST: list, SET: set, FROZENSET: frozenset, TUPLE: tuple, STR: str, INT: int, FLOAT: float, BYTES: bytes, BOOL: bool,
                           FUNCTION: types.FunctionType, V.GENERATOR: types.GeneratorType, DEFAULTDICT: collections.defaultdict, ORDEREDDICT: collections.OrderedDict,
                           COUNTER: collections.Counter, DEQUE: collections.deque, TASK: asyncio.Task, FUTURE: asyncio.Future, EVENT: asyncio.Event, LOCK: asyncio.Lock,
                           SEMAPHORE: asyncio.Semaphore, QUEUE: asyncio.Queue, LIFOQUEUE: asyncio.LifoQueue, PRIOQUEUE: asyncio.PriorityQueue, LOGGER: logging.Logger,
                           PATTERN: _re.Pattern, MATCH: _re.Match, TASKGROUP: asyncio.TaskGroup, TIMEOUT: asyncio.Timeout, ENUM: __import__("enum").Enum,
                           LOOPCLS: asyncio.AbstractEventLoop, TYPE: type, MODULE: types.ModuleType, PATH: __import__("pathlib").Path, EXC["BaseException"]: BaseException,
                           EXC["BaseExceptionGroup"]: BaseExceptionGroup})
    return HOST_TYPES.get(c)


def host_has(ip, obj, name):
    """The real type of `obj` has an attribute that is not modelled: its absence must not be concluded."""
    if isinstance(obj, AModule) or obj is None:
        return False
    if isinstance(obj, ACoro):
        return hasattr(_COROUTINE, name)
    if isinstance(obj, AInst) and any("nt" in c.flags or "dc" in c.flags for c in obj.cls.mro) and name in ("__dataclass_fields__", "__match_args__"):
        return True
    cls = obj if isinstance(obj, AClass) else ip.class_of(obj)
    if cls is None:
        return False
    if isinstance(obj, AClass) and hasattr(type, name):
        return True
    for c in cls.mro:
        h = host_type(c)
        if h is not None and hasattr(h, name):
            return True
    return name.startswith("__") and name.endswith("__") and hasattr(object, name)


async def _coroutine():
    pass
_c = _coroutine()
_COROUTINE = type(_c)
_c.close()


PERCENT = _re.compile(r"%(?:\((?P<key>[^)]*)\))?(?P<flags>[#0\- +]*)(?P<width>\d+|\*)?(?:\.(?P<prec>\d+|\*))?[hlL]?(?P<conv>[diouxXeEfFgGcrsa%])")


def percent(ip, fmt, b):
    """fmt % b"""
    named = isinstance(b, ADict)
    if named and any(m["key"] is None and m["conv"] != "%" for m in PERCENT.finditer(fmt)) or not named:
        named = False
    vals = list(b) if isinstance(b, tuple) else _seq(b) if isinstance(b, AInst) and _seq(b) is not None else [b]
    out, pos, at = [], 0, 0
    for m in PERCENT.finditer(fmt):
        out.append(fmt[pos:m.start()].replace("%", "%") )
        if "%" in fmt[pos:m.start()]:
            ip.throw("ValueError", "unsupported format character")
        pos = m.end()
        if m["conv"] == "%":
            out.append("%")
            continue
        if m["width"] == "*" or m["prec"] == "*":
            return ip.unmodelled("% formatting with *")
        if m["key"] is not None:
            if not isinstance(b, ADict):
                ip.throw("TypeError", "format requires a mapping")
            v = ip.force(ip.getitem(b, m["key"]))
        else:
            if at >= len(vals):
                ip.throw("TypeError", "not enough arguments for format string")
            v = ip.force(vals[at])
            at += 1
        spec = "%" + m["flags"] + (m["width"] or "") + (f".{m['prec']}" if m["prec"] is not None else "") + m["conv"]
        if _is_raw(v):
            try:
                out.append(spec % ((_plain(v),)))
            except Exception as e:
                ip.host_exc(e)
        elif m["conv"] in "sra":
            t = ip.to_str(v, "", 114 if m["conv"] in "ra" else -1)
            if len(spec) > 2:
                t = spec % t if isinstance(t, str) else ip.unmodelled("% formatting of an unknown text")
            out.append(t)
        else:
            k = ip.class_of(v)
            if k is not None and not (k.issub(INT) or k.issub(FLOAT)):
                ip.throw("TypeError", f"%{m['conv']} format: a real number is required, not {k.name}")
            out.append(v if len(spec) == 2 else ip.fresh("fmt", STR))
    if "%" in fmt[pos:]:
        ip.throw("ValueError", "incomplete format")
    out.append(fmt[pos:])
    if not named and not isinstance(b, ADict) and at < len(vals):
        ip.throw("TypeError", "not all arguments converted during string formatting")
    return ip.mkstr(out)


def str_format(ip, s, vals, kv):
    """s.format(...)"""
    import string
    auto = [0]

    def field(name):
        first, rest = string._string.formatter_field_name_split(name)
        if first == "":
            first = auto[0]
            auto[0] += 1
        if isinstance(first, int):
            if first >= len(vals):
                ip.throw("IndexError", "Replacement index out of range")
            v = vals[first]
        else:
            if first not in kv:
                ip.throw("KeyError", first)
            v = kv[first]
        for attr, x in rest:
            v = ip.getattr_(v, x) if attr else ip.getitem(v, x)
        return v

    def run(text):
        out = []
        for lit, name, spec, conv in string.Formatter().parse(text):
            out.append(lit)
            if name is not None:
                v = field(name)
                sp = run(spec) if spec else ""
                if not isinstance(sp, str):
                    return ip.unmodelled("format with an unknown specification")
                out.append(ip.to_str(v, sp, {"r": 114, "a": 114, "s": 115}.get(conv, -1)))
        return ip.mkstr(out)
    try:
        return run(s)
    except ValueError as e:
        ip.host_exc(e)


def closure(name, f, obj):
    return ABuiltin(name, lambda ip, a, k: f(ip, obj, a, k))


def value_attr(ip, obj, name):
    if isinstance(obj, ADict):
        f = DICT_M.get(name)
        if f and name in ONLY_M and not obj.cls.issub(ONLY_M[name]):
            f = None
        if f:
            return closure(name, f, obj)
        if name == "default_factory" and obj.cls.issub(DEFAULTDICT):
            return obj.default_factory
        c = obj.cls.lookup(name)
        if c is not MISSING:
            return bind_cls(ip, c, obj)
    elif isinstance(obj, AList):
        f = LIST_M.get(name)
        if f:
            return closure(name, f, obj)
        c = obj.cls.lookup(name)
        if c is not MISSING:
            return bind_cls(ip, c, obj)
    elif isinstance(obj, ASet):
        f = SET_M.get(name)
        if f:
            return closure(name, f, obj)
    elif isinstance(obj, Tok) and name in ("type", "value"):
        return obj.type if name == "type" else str(obj)
    elif isinstance(obj, (str, AStr)):
        f = str_method(name)
        if f:
            return closure(name, f, obj)
    elif isinstance(obj, tuple):
        if name in ("index", "count"):
            return closure(name, LIST_M[name], AList(obj))
    elif isinstance(obj, bytes):
        if name == "decode":
            def dec(ip, a, k):
                try:
                    return obj.decode(*[ip.force(x) for x in a])
                except Exception as e:
                    ip.host_exc(e)
            return ABuiltin("decode", dec)
        if hasattr(bytes, name):
            return ABuiltin(name, lambda ip, a, k: getattr(obj, name)(*[ip.force(x) for x in a]))
    elif isinstance(obj, bool) or isinstance(obj, (int, float)):
        if name in ("real", "numerator"):
            return obj
        if name in ("is_integer", "bit_length", "as_integer_ratio"):
            return ABuiltin(name, lambda ip, a, k: getattr(_plain(obj), name)())
    elif isinstance(obj, AFut):
        if name in obj.attrs:
            return obj.attrs[name]
        f = FUT_M.get(name)
        if f:
            return closure(name, f, obj)
    elif isinstance(obj, AGen):
        def nx(ip, a, k):
            r = ip.gen_next(obj, a[0] if a else None)
            if r is None:
                e = ip.exc("StopIteration")
                e.attrs.update(value=obj.ret, args=() if obj.ret is None else (obj.ret,))
                ip.throw(e)
            return r[0]

        def thr(ip, a, k):
            e = ip.force(a[0])
            r = ip.gen_next(obj, None, AExc(ip.instantiate(e, [], {}) if isinstance(e, AClass) else e))
            if r is None:
                ip.throw("StopIteration")
            return r[0]
        if name in ("__next__", "send"):
            return ABuiltin(name, nx)
        if name == "throw":
            return ABuiltin(name, thr)
        if name == "close":
            return ABuiltin(name, lambda ip, a, k: ip.gen_close(obj))
        if name in ("asend", "__anext__", "aclose", "athrow"):
            def anx(ip, a, k):
                def run():
                    if name == "aclose":
                        return ip.gen_close(obj)
                    r = ip.gen_next(obj, a[0] if a else None)
                    if r is None:
                        ip.throw("StopAsyncIteration")
                    return r[0]
                return ACoro(run, name)
            if name != "athrow":
                return ABuiltin(name, anx)
        if name == "__iter__" or name == "__aiter__":
            return ABuiltin(name, lambda ip, a, k: obj)
    elif type(obj) is AIter and name == "__next__":
        return ABuiltin(name, lambda ip, a, k: b_next(ip, [obj], {}))
    elif isinstance(obj, ACoro):
        if name == "close":
            return ABuiltin("close", lambda ip, a, k: setattr(obj, "started", True))
        if name in ("__name__", "__qualname__"):
            return obj.name
    elif isinstance(obj, AProperty):
        if name == "setter":
            return ABuiltin("setter", lambda ip, a, k: AProperty(obj.fget, a[0]))
        if name == "getter":
            return ABuiltin("getter", lambda ip, a, k: AProperty(a[0], obj.fset))
    elif isinstance(obj, AView):
        if name in ("isdisjoint",):
            return closure(name, SET_M[name], ASet([ip.force(x) for x in ip.listof(obj)]))
        if name == "mapping":
            return obj.d
    if name == "__class__":
        return ip.class_of(obj)
    if name == "__doc__":
        return None
    if name.startswith("__") and name.endswith("__"):
        f = dunder(ip, obj, name)
        if f is not None:
            return f
    return MISSING


def dunder(ip, obj, name):
    m = {
        "__len__": lambda a: b_len(ip, [obj], {}), "__contains__": lambda a: ip.contains(obj, a[0]), "__getitem__": lambda a: ip.getitem(obj, a[0]),
        "__setitem__": lambda a: ip.setitem(obj, a[0], a[1]), "__eq__": lambda a: ip.eq(obj, a[0]), "__ne__": lambda a: not ip.eq(obj, a[0]),
        "__str__": lambda a: ip.to_str(obj), "__repr__": lambda a: ip.to_str(obj, "", 114), "__iter__": lambda a: AIter(ip.iter_values(obj)),
        "__bool__": lambda a: ip.truth(obj), "__hash__": lambda a: hash(str(ip.hk(obj))),
    }.get(name)
    if m is None:
        return None
    return ABuiltin(name, lambda ip, a, k: m(a))


def bind_cls(ip, c, obj):
    if isinstance(c, AFunc):
        return ABound(c, obj)
    if isinstance(c, AProperty):
        return ip.call(c.fget, [obj], {})
    if isinstance(c, AStatic):
        return c.f
    if isinstance(c, AClassMethod):
        return ABound(c.f, ip.class_of(obj))
    return c


# dict ---------------------------------------------------------------------
def d_get(ip, d, a, k):
    key = a[0]
    dfl = a[1] if len(a) > 1 else k.get("default")
    kf = ip.force(key)
    v = ip.dict_get(d, kf, dfl)
    return v


def d_pop(ip, d, a, k):
    v = ip.dict_get(d, a[0])
    if v is MISSING:
        if len(a) > 1:
            return a[1]
        ip.throw("KeyError", ip.force(a[0]))
    ip.dict_del(d, a[0])
    return v


def d_setdefault(ip, d, a, k):
    v = ip.dict_get(d, a[0])
    if v is MISSING:
        v = a[1] if len(a) > 1 else None
        ip.dict_set(d, a[0], v)
    return v


def d_update(ip, d, a, k):
    if a:
        dict_update(ip, d, a[0])
    for kk, v in k.items():
        ip.dict_set(d, kk, v)


def d_clear(ip, d, a, k):
    ip.note_write(d, "clear")
    d.e.clear()


def d_copy(ip, d, a, k):
    n = ADict(cls=DICT if d.cls not in (DEFAULTDICT,) else d.cls, open=d.open)
    n.default_factory = d.default_factory
    n.absent = set(d.absent)
    for h, (kk, v) in d.e.items():
        n.e[h] = [kk, v]
    return n


def d_popitem(ip, d, a, k):
    items = ip.dict_items(d)
    if not items:
        ip.throw("KeyError", "popitem(): dictionary is empty")
    i = -1 if not d.cls.issub(ORDEREDDICT) or ip.truth(a[0] if a else k.get("last", True)) else 0
    ip.dict_del(d, items[i][0])
    return items[i]


def d_move_to_end(ip, d, a, k):
    key, last = a[0], ip.truth(a[1] if len(a) > 1 else k.get("last", True))
    v = ip.dict_get(d, key)
    if v is MISSING:
        ip.throw("KeyError", key)
    items = [(x, y) for x, y in ip.dict_items(d)]
    moved = [p for p in items if ip.eq(p[0], key)]
    rest = [p for p in items if not ip.eq(p[0], key)]
    ip.note_write(d, "move_to_end", key=key)
    d.e.clear()
    for x, y in (rest + moved if last else moved + rest):
        ip.dict_set(d, x, y)


ONLY_M = {"most_common": COUNTER, "elements": COUNTER, "total": COUNTER, "move_to_end": ORDEREDDICT}
DICT_M = {
    "get": d_get, "pop": d_pop, "setdefault": d_setdefault, "update": d_update, "clear": d_clear, "copy": d_copy, "popitem": d_popitem,
    "keys": lambda ip, d, a, k: AView(ip, d, "keys"), "values": lambda ip, d, a, k: AView(ip, d, "values"),
    "items": lambda ip, d, a, k: AView(ip, d, "items"),
    "__contains__": lambda ip, d, a, k: ip.contains(d, a[0]), "__getitem__": lambda ip, d, a, k: ip.getitem(d, a[0]),
    "__setitem__": lambda ip, d, a, k: ip.setitem(d, a[0], a[1]), "__len__": lambda ip, d, a, k: b_len(ip, [d], {}),
    "fromkeys": lambda ip, d, a, k: fromkeys(ip, a),
    "most_common": lambda ip, d, a, k: AList(sort_list(ip, [(x, y) for x, y in ip.dict_items(d)], ABuiltin("k", lambda ip, a2, k2: -ip.force(a2[0])[1]))[:ip.force((list(a) + list(k.values()) + [None])[0])]),
    "elements": lambda ip, d, a, k: AIter(iter([x for x, y in ip.dict_items(d) for _ in range(ip.force(y))])),
    "total": lambda ip, d, a, k: sum(ip.force(y) for _, y in ip.dict_items(d)),
    "move_to_end": d_move_to_end,
}


def fromkeys(ip, a):
    d = ADict()
    for x in ip.iter_values(a[0]):
        ip.dict_set(d, x, a[1] if len(a) > 1 else None)
    return d


# list ---------------------------------------------------------------------
def l_append(ip, l, a, k):
    ip.note_write(l, "append", value=a[0])
    l.items.append(a[0])


def l_extend(ip, l, a, k):
    vals = ip.listof(a[0])
    ip.note_write(l, "extend", value=vals)
    l.items.extend(vals)


def l_insert(ip, l, a, k):
    ip.note_write(l, "insert", value=a[1])
    l.items.insert(ip.force(a[0]), a[1])


def l_pop(ip, l, a, k):
    ip.note_write(l, "pop")
    try:
        return l.items.pop(*[ip.force(x) for x in a])
    except IndexError:
        ip.throw("IndexError", "pop from empty list")


def l_remove(ip, l, a, k):
    for i, x in enumerate(l.items):
        if ip.eq(x, a[0]):
            ip.note_write(l, "remove")
            del l.items[i]
            return
    ip.throw("ValueError", "list.remove(x): x not in list")


def l_index(ip, l, a, k):
    for i, x in enumerate(l.items):
        if ip.eq(x, a[0]):
            return i
    ip.throw("ValueError", "not in list")


def l_sort(ip, l, a, k):
    ip.note_write(l, "sort")
    l.items[:] = sort_list(ip, l.items, k.get("key"), k.get("reverse", False))


def l_reverse(ip, l, a, k):
    ip.note_write(l, "reverse")
    l.items.reverse()


def l_clear(ip, l, a, k):
    ip.note_write(l, "clear")
    l.items.clear()


def l_popleft(ip, l, a, k):
    if not l.items:
        ip.throw("IndexError", "pop from an empty deque")
    return l.items.pop(0)


LIST_M = {
    "append": l_append, "extend": l_extend, "insert": l_insert, "pop": l_pop, "remove": l_remove, "index": l_index, "sort": l_sort,
    "reverse": l_reverse, "clear": l_clear, "copy": lambda ip, l, a, k: AList(l.items, LIST),
    "count": lambda ip, l, a, k: sum(1 for x in l.items if ip.eq(x, a[0])), "popleft": l_popleft,
    "appendleft": lambda ip, l, a, k: l.items.insert(0, a[0]),
}


# set ---------------------------------------------------------------------
def s_others(ip, a):
    out = {}
    for o in a:
        for x in ip.iter_values(o):
            x = ip.force(x)
            out[ip.hk(x)] = x
    return out


def s_add(ip, s, a, k):
    ip.note_write(s, "add", value=a[0])
    set_add(ip, s, a[0])


def s_update(ip, s, a, k):
    ip.note_write(s, "update")
    for o in a:
        for x in ip.listof(o):
            set_add(ip, s, x)


def s_discard(ip, s, a, k):
    ip.note_write(s, "discard", value=a[0])
    s.e.pop(ip.hk(a[0]), None)


def s_remove(ip, s, a, k):
    h = ip.hk(a[0])
    if h not in s.e:
        ip.throw("KeyError", ip.force(a[0]))
    ip.note_write(s, "remove", value=a[0])
    del s.e[h]


def s_pop(ip, s, a, k):
    if not s.e:
        ip.throw("KeyError", "pop from an empty set")
    ip.note_write(s, "pop")
    ks = list(s.e)
    if len(ks) > 1:
        ip.hook("set_iter", s)
    return s.e.pop(ks[0] if ip.set_order > 0 else ks[-1])


def s_new(ip, s, e):
    n = ASet(cls=s.cls)
    n.e = e
    return n


def s_diff(ip, s, a, k):
    o = s_others(ip, a)
    return s_new(ip, s, {h: x for h, x in s.e.items() if h not in o})


def s_diff_update(ip, s, a, k):
    ip.note_write(s, "difference_update")
    for h in s_others(ip, a):
        s.e.pop(h, None)


def s_inter(ip, s, a, k):
    e = dict(s.e)
    for o in a:
        oo = s_others(ip, [o])
        e = {h: x for h, x in e.items() if h in oo}
    return s_new(ip, s, e)


def s_union(ip, s, a, k):
    n = s_new(ip, s, dict(s.e))
    for o in a:
        for x in ip.listof(o):
            set_add(ip, n, x)
    return n


def s_symdiff(ip, s, a, k):
    o = s_others(ip, a)
    e = {h: x for h, x in s.e.items() if h not in o}
    e.update({h: x for h, x in o.items() if h not in s.e})
    return s_new(ip, s, e)


SET_M = {
    "add": s_add, "update": s_update, "discard": s_discard, "remove": s_remove, "pop": s_pop, "difference": s_diff,
    "difference_update": s_diff_update, "intersection": s_inter, "union": s_union, "symmetric_difference": s_symdiff,
    "clear": lambda ip, s, a, k: (ip.note_write(s, "clear"), s.e.clear(), None)[2], "copy": lambda ip, s, a, k: s_new(ip, s, dict(s.e)),
    "issubset": lambda ip, s, a, k: set(s.e) <= set(s_others(ip, a)), "issuperset": lambda ip, s, a, k: set(s.e) >= set(s_others(ip, a)),
    "isdisjoint": lambda ip, s, a, k: not (set(s.e) & set(s_others(ip, a))),
    "intersection_update": lambda ip, s, a, k: (ip.note_write(s, "iu"), s.e.update({}), [s.e.pop(h) for h in list(s.e) if h not in s_others(ip, a)], None)[3],
}


# str ---------------------------------------------------------------------
def str_pred(ip, op, c, x):
    h = ip.hooks.get("str_pred")
    return h(ip, op, c, x) if h else None


_STR_CACHE = {}


def str_method(name):
    if name in _STR_CACHE:
        return _STR_CACHE[name]
    if not hasattr(str, name) or name.startswith("__"):
        _STR_CACHE[name] = None
        return None

    def run(ip, s, a, k):
        vals = [ip.force(x) for x in a]
        kv = {n: ip.force(v) for n, v in k.items()}
        if name in ("strip", "rstrip", "lstrip", "split", "rsplit", "replace", "find", "count", "removeprefix", "removesuffix", "partition", "rpartition"):
            for x in vals:
                if isinstance(x, (AList, ADict, AInst, ASet)):
                    ip.throw("TypeError", f"{ip.class_of(x).name} is not a string")
        if name == "join":
            items = [ip.force(x) for x in ip.listof(vals[0])]
            out = []
            for i, x in enumerate(items):
                kx = ip.class_of(x)
                if kx is None or not kx.issub(STR):
                    if kx is None and ip.isinstance_(x, STR):
                        pass
                    else:
                        ip.throw("TypeError", f"sequence item {i}: expected str instance, {kx.name if kx else '?'} found")
                if i:
                    out.append(s)
                out.append(x)
            return ip.mkstr(out)
        if name == "format":
            if isinstance(s, str) and all(_is_raw(x) for x in vals) and all(_is_raw(x) for x in kv.values()):
                try:
                    return s.format(*[_plain(v) for v in vals], **{n: _plain(v) for n, v in kv.items()})
                except Exception as e:
                    ip.host_exc(e)
            if isinstance(s, str):
                return str_format(ip, str(s), vals, kv)
            return ip.unmodelled("format of an unknown text")
        if name == "format_map" and isinstance(s, str) and isinstance(vals[0], ADict):
            return str_format(ip, str(s), [], {k: x for k, x in ip.dict_items(vals[0])})
        if name == "translate" and isinstance(s, str) and isinstance(vals[0], ADict):
            try:
                return str(s).translate(to_host(ip, vals[0]))
            except NotHost:
                return ip.unmodelled("translate")
        if name == "maketrans":
            try:
                return to_abs(str.maketrans(*[to_host(ip, v) for v in vals]))
            except NotHost:
                return ip.unmodelled("maketrans")
            except Exception as e:
                ip.host_exc(e)
        def raw(v):
            return _is_raw(v) or isinstance(v, AList) and all(_is_raw(ip.force(x)) for x in v.items)
        if isinstance(s, str) and all(_is_raw(v) for v in vals) and all(_is_raw(v) for v in kv.values()):
            try:
                r = getattr(str(s), name)(*[_plain(v) for v in vals], **kv)
            except Exception as e:
                ip.host_exc(e)
            return AList(r) if isinstance(r, list) else r
        h = ip.hooks.get("str_method")
        if h:
            r = h(ip, name, s, vals)
            if r is not NotImplemented and r is not None:
                return r
        if name in ("startswith", "endswith") and isinstance(vals[0], str):
            parts = s.parts if isinstance(s, AStr) else [s]
            edge = parts[0] if name == "startswith" else parts[-1]
            if isinstance(edge, str) and len(edge) >= len(vals[0]):
                return getattr(edge, name)(vals[0])
            r = str_pred(ip, name, s, vals[0])
            if r is not None:
                return r
        if name in ("encode",):
            return ip.fresh("bytes", BYTES)
        key = (name, tuple(repr(v) for v in vals), _key(s))
        m = ip.singletons.setdefault("strm", {})
        if key not in m:
            cls = BOOL if name.startswith("is") or name in ("startswith", "endswith") else INT if name in ("find", "rfind", "index", "count", "rindex") else STR
            if name in ("split", "rsplit", "splitlines", "partition", "rpartition"):
                r = Sym(f"{name}({s!r})", LIST if "partition" not in name else TUPLE, True)
                r.core.memo["elem"] = lambda ip, sy, i: Sym(f"{sy.name}[{i}]", STR)
                r.core.minlen = 1
                if "partition" in name:
                    r.core.length = 3
            else:
                r = Sym(f"{name}({s!r})", cls)
            m[key] = r
            ip.keep.append(s)
        r = m[key]
        if r.core.cls is BOOL:
            return ip.truth(r)
        return r
    _STR_CACHE[name] = run
    return run


def _key(s):
    if isinstance(s, Sym):
        return id(s.core)
    if isinstance(s, str):
        return s
    return id(s)


# --------------------------------------------------------------------------- attributes of instances / classes / opaque values
def inst_attr(ip, obj, name):
    cls = obj.cls
    fl = V._flags(cls)
    if cls is SUPER:
        self_, c = obj.attrs["__self__"], obj.attrs["__cls__"]
        mro = (self_.cls if isinstance(self_, AInst) else self_).mro
        after = mro[mro.index(c) + 1:]
        for k in after:
            if name in k.ns:
                return bind_cls(ip, k.ns[name], self_)
        if name in ("__init__", "__init_subclass__", "__setattr__"):
            if name == "__init__" and isinstance(self_, AInst) and self_.cls.issub(EXC["BaseException"]):
                def ini(ip, a, k):
                    self_.attrs["args"] = tuple(a)
                return ABuiltin("__init__", ini)
            if name == "__setattr__":
                return ABuiltin("__setattr__", lambda ip, a, k: self_.attrs.__setitem__(ip.force(a[0]), a[1]))
            return ABuiltin(name, lambda ip, a, k: None)
        if name == "__new__":
            return ABuiltin(name, lambda ip, a, k: AInst(a[0]))
        return MISSING
    if "nt" in fl:
        names = [f for f, _ in cls.fields]
        if name in ("_replace", "__replace__"):
            def rep(ip, a, k):
                n = AInst(cls, dict(obj.attrs))
                for kk, v in k.items():
                    if kk not in names:
                        ip.throw("ValueError", f"Got unexpected field names: {kk}")
                    n.attrs[kk] = v
                return n
            return ABuiltin(name, rep)
        if name == "_asdict":
            return ABuiltin(name, lambda ip, a, k: ADict([(n, obj.attrs[n]) for n in names]))
        if name in ("index", "count"):
            return closure(name, LIST_M[name], AList([obj.attrs[n] for n in names]))
    if cls.issub(EXC["BaseException"]):
        if name in ("with_traceback", "add_note"):
            return ABuiltin(name, lambda ip, a, k: obj)
        if name in ("__traceback__", "__cause__", "__context__", "tree", "errno", "response", "token", "strerror"):
            return None
        if name == "args":
            return ()
        if name in ("line", "column") and cls.issub(CELPY_PARSE_ERROR):
            return 1
        if name == "exceptions" and cls.issub(EXC["BaseExceptionGroup"]):
            a = obj.attrs.get("args", ())
            return tuple(ip.listof(a[1])) if len(a) > 1 else ()
        if name == "message" and cls.issub(EXC["BaseExceptionGroup"]):
            a = obj.attrs.get("args", ())
            return a[0] if a else ""
        if name == "message" and cls.issub(FJS_VALUE):
            return ip.to_str(obj.attrs.get("args", ("",))[0])
        if name == "value" and cls.issub(EXC["StopIteration"]):
            return None
    f = INST_M.get(cls.full)
    if f:
        r = f(ip, obj, name)
        if r is not MISSING:
            return r
    if "opaque" in fl:
        return memo_attr(ip, obj, name)
    return MISSING


INST_M = {}


def memo_attr(ip, obj, name):
    v = Sym(f"{obj.cls.name}.{name}")
    obj.attrs[name] = v
    return v


def class_attr(ip, cls, name):
    if name in ("__name__",):
        return cls.name
    if name == "__qualname__":
        return cls.qualname
    if name == "__module__":
        return cls.module
    if name == "__mro__":
        return tuple(cls.mro)
    if name == "__bases__":
        return tuple(cls.bases)
    if name == "__doc__":
        return None
    if name == "__class__":
        return TYPE
    if name == "__dict__":
        return ADict(dict(cls.ns))
    if name == "__annotations__":
        return ADict([(n, None) for n, _ in getattr(cls, "ann", [])])
    fl = V._flags(cls)
    if "nt" in fl or "dc" in fl:
        if name in ("_fields", "__match_args__"):
            return tuple(f for f, _ in cls.fields)
        if name == "_make":
            return ABuiltin("_make", lambda ip, a, k: ip.instantiate(cls, ip.listof(a[0]), {}))
    if name == "__members__" and "enum" in fl:
        return ADict([(m.attrs["name"], m) for m in cls.ns["__members__"]])
    table = None
    if cls.issub(DICT):
        table = DICT_M
        if name == "fromkeys":
            return ABuiltin(name, lambda ip, a, k: fromkeys(ip, a))
    elif cls.issub(LIST):
        table = LIST_M
    elif cls.issub(SET):
        table = SET_M
    elif cls.issub(STR):
        f = str_method(name)
        if name == "maketrans":
            return ABuiltin(name, lambda ip, a, k: f(ip, "", a, k))
        if f:
            return ABuiltin(name, lambda ip, a, k: f(ip, ip.force(a[0]), a[1:], k))
    elif cls is BYTES and name == "fromhex":
        return ABuiltin(name, lambda ip, a, k: bytes.fromhex(ip.force(a[0])))
    if table and name in table:
        f = table[name]
        return ABuiltin(name, lambda ip, a, k: f(ip, ip.force(a[0]), a[1:], k))
    if cls is OBJECT or cls.issub(OBJECT):
        if name == "__init__":
            return ABuiltin(name, lambda ip, a, k: None)
        if name == "__new__":
            return ABuiltin(name, lambda ip, a, k: AInst(a[0]))
        if name == "__setattr__":
            return ABuiltin(name, lambda ip, a, k: a[0].attrs.__setitem__(ip.force(a[1]), a[2]))
        if name == "__subclasses__":
            return ABuiltin(name, lambda ip, a, k: AList([]))
    if cls.issub(DATETIME) or cls is DATETIME:
        if name in ("now", "utcnow", "fromtimestamp", "fromisoformat"):
            def now(ip, a, k):
                ip.clock += 1
                s = Sym(f"now{ip.clock}", DATETIME, True)
                s.core.distinct = "now"
                return s
            return ABuiltin(name, now)
    return MISSING


def sym_attr(ip, s, name):
    k = s.core.cls
    if k is not None:
        if k.issub(STR):
            f = str_method(name)
            if f:
                return closure(name, f, s)
        elif k.issub(DICT):
            if name in DICT_M:
                return closure(name, DICT_M[name], ip.sym_dict(s))
        elif k.issub(LIST):
            if name in LIST_M:
                return closure(name, LIST_M[name], ip.sym_list(s))
        elif k.issub(DATETIME) or k.issub(TIMEDELTA):
            if name in ("isoformat", "strftime", "__str__"):
                return ABuiltin(name, lambda ip, a, kw: ip.memo_sym(s, ("m", name), f"{s.name}.{name}()", STR, True))
            return ABuiltin(name, lambda ip, a, kw: ip.memo_sym(s, ("m", name), f"{s.name}.{name}()"))
        elif k.issub(INT) or k.issub(FLOAT) or k is NONE:
            return MISSING
        c = k.lookup(name)
        if c is not MISSING:
            return bind_cls(ip, c, s)
        if name == "__class__":
            return k
        if k.kind == "repo" and "opaque" not in V._flags(k) and not (k.fields and name in [f for f, _ in k.fields]):
            if k.fields is not None:
                return MISSING
    if name == "__class__":
        return ip.memo_sym(s, ("type",), f"type({s.name})")
    if k is None and name in DICT_M and name in ("get", "items", "keys", "values", "setdefault", "update"):
        return closure(name, DICT_M[name], ip.sym_dict(s))
    return ip.memo_sym(s, ("attr", name), f"{s.name}.{name}")


def call_sym(ip, s, args, kw):
    h = ip.hooks.get("call_sym")
    if h:
        r = h(ip, s, args, kw)
        if r is not NotImplemented:
            return r
    k = s.core.cls
    if k is not None and (k.issub(STR) or k.issub(DICT) or k.issub(INT) or k.issub(LIST)):
        ip.throw("TypeError", f"'{k.name}' object is not callable")
    if not s.name.startswith(("ext:", "type")):
        ip.unmodelled(f"call of {s.name}")
    elif s.name.startswith("ext:"):
        ip.unmodelled(f"call of {s.name}")
    return ip.memo_sym(s, ("call", len(args), tuple(repr(a) for a in args), tuple(kw)), f"{s.name}()")


# --------------------------------------------------------------------------- context managers
def cm_methods(ip, cm, is_async):
    if isinstance(cm, AInst):
        en = cm.cls.lookup("__aenter__" if is_async else "__enter__")
        ex = cm.cls.lookup("__aexit__" if is_async else "__exit__")
        if en is MISSING or ex is MISSING:
            ip.throw("TypeError", f"'{cm.cls.name}' object does not support the context manager protocol")

        def do(f, extra):
            r = ip.call(f, [cm] + extra, {})
            return ip.await_(r) if is_async and isinstance(r, (ACoro, AFut)) else r

        def enter():
            return do(en, [])

        def exit_(exc):
            if exc is None:
                return ip.truth(do(ex, [None, None, None]))
            if isinstance(ex, ABuiltin):
                return ip.truth(do(ex, [exc.value.cls, exc.value, exc]))
            return ip.truth(do(ex, [exc.value.cls, exc.value, None]))
        return enter, exit_
    if isinstance(cm, Sym):
        ip.unmodelled(f"context manager {cm!r}")
        return (lambda: ip.memo_sym(cm, ("enter",), f"{cm.name}.__enter__")), (lambda exc: False)
    ip.throw("TypeError", f"'{ip.class_of(cm).name}' object does not support the context manager protocol")


# --------------------------------------------------------------------------- asyncio
TASK = AClass("Task", [OBJECT], module="asyncio")
FUTURE = AClass("Future", [OBJECT], module="asyncio")
TASK.bases = [FUTURE]
TASK.mro = [TASK, FUTURE, OBJECT]
AFut.cls = FUTURE
TASKGROUP = AClass("TaskGroup", [OBJECT], module="asyncio")
TIMEOUT = AClass("Timeout", [OBJECT], module="asyncio")
EVENT = AClass("Event", [OBJECT], module="asyncio")
LOCK = AClass("Lock", [OBJECT], module="asyncio")
SEMAPHORE = AClass("Semaphore", [OBJECT], module="asyncio")
QUEUE = AClass("Queue", [OBJECT], module="asyncio")
LIFOQUEUE = AClass("LifoQueue", [QUEUE], module="asyncio")
PRIOQUEUE = AClass("PriorityQueue", [QUEUE], module="asyncio")


def coro(ip, name, run):
    return ACoro(run, name)


def f_done(ip, f, a, k):
    return f.done


def f_result(ip, f, a, k):
    if not f.done:
        ip.throw(INVALID_STATE, "Result is not set.")
    if f.cancelled:
        ip.throw(CANCELLED)
    if f.exc is not None:
        e = AExc(f.exc.value)
        e.trace = f.exc.trace
        raise e
    return f.result


def f_exception(ip, f, a, k):
    if not f.done:
        ip.throw(INVALID_STATE, "Exception is not set.")
    if f.cancelled:
        ip.throw(CANCELLED)
    return f.exc.value if f.exc is not None else None


def f_setname(ip, f, a, k):
    f.name = a[0]


def f_set_result(ip, f, a, k):
    if f.done:
        ip.throw(INVALID_STATE, "invalid state")
    ip.loop.finish(f, a[0])


def f_set_exception(ip, f, a, k):
    ip.loop.finish(f, None, exc=AExc(ip.force(a[0])))


def f_cancel(ip, f, a, k):
    return ip.loop.cancel(f)


def f_uncancel(ip, f, a, k):
    f.cancelling = max(0, f.cancelling - 1)
    return f.cancelling


FUT_M = {
    "done": f_done, "result": f_result, "exception": f_exception, "cancelled": lambda ip, f, a, k: f.done and f.cancelled,
    "get_name": lambda ip, f, a, k: f.name, "set_name": f_setname, "cancel": f_cancel, "set_result": f_set_result,
    "set_exception": f_set_exception, "add_done_callback": lambda ip, f, a, k: ip.loop.add_cb(f, a[0]),
    "remove_done_callback": lambda ip, f, a, k: ip.loop.remove_cb(f, a[0]), "uncancel": f_uncancel,
    "cancelling": lambda ip, f, a, k: f.cancelling, "get_coro": lambda ip, f, a, k: f.coro,
}


def as_task(ip, v):
    v = ip.force(v)
    if isinstance(v, AFut):
        return v
    if isinstance(v, ACoro):
        return ip.loop.spawn(v, None)
    if isinstance(v, AInst) and v.cls.lookup("__await__") is not MISSING:
        return ip.loop.spawn(ACoro(lambda: ip.await_(v), "awaitable"), None)
    ip.throw("TypeError", "An asyncio.Future, a coroutine or an awaitable is required")


def a_create_task(ip, args, kw):
    c = ip.force(args[0])
    if not isinstance(c, ACoro):
        ip.throw("TypeError", f"a coroutine was expected, got {ip.class_of(c).name}")
    t = ip.loop.spawn(c, kw.get("name"))
    ip.emit("create_task", task=t)
    return t


# TaskGroup
def tg_init(ip, args, kw):
    g = args[0]
    g.attrs.update({"__tasks": [], "__errors": [], "__abort": False, "__pcr": False, "__exiting": False, "__fut": None, "__parent": None})


def tg_enter(ip, args, kw):
    g = args[0]
    g.attrs["__parent"] = ip.task
    return g


def tg_abort(ip, g):
    g.attrs["__abort"] = True
    for t in list(g.attrs["__tasks"]):
        if not t.done:
            ip.loop.cancel(t)


def tg_create(ip, args, kw):
    g = args[0]
    A = g.attrs
    c = ip.force(args[1] if len(args) > 1 else kw.get("coro"))
    if A["__parent"] is None or (A["__exiting"] and not A["__tasks"]) or A["__abort"]:
        if isinstance(c, ACoro):
            c.started = True
        ip.throw("RuntimeError", "TaskGroup is not active")
    if not isinstance(c, ACoro):
        ip.throw("TypeError", f"a coroutine was expected, got {ip.class_of(c).name}")
    t = ip.loop.spawn(c, kw.get("name"))
    A["__tasks"].append(t)

    def on_done(f):
        if f in A["__tasks"]:
            A["__tasks"].remove(f)
        if A["__fut"] is not None and not A["__tasks"] and not A["__fut"].done:
            ip.loop.finish(A["__fut"], True)
        if f.cancelled or f.exc is None:
            return
        A["__errors"].append(f.exc.value)
        p = A["__parent"]
        if p is None or p.done:
            return
        if not A["__abort"] and not A["__pcr"]:
            tg_abort(ip, g)
            A["__pcr"] = True
            ip.loop.cancel(p)
    t.callbacks.append(on_done)
    ip.emit("create_task", task=t)
    return t


def tg_exit(ip, args, kw):
    g, et, ev, exc = args[:4]
    A = g.attrs
    A["__exiting"] = True
    prop = exc if exc is not None and et.issub(CANCELLED) else None
    if A["__pcr"]:
        p = A["__parent"]
        p.cancelling = max(0, p.cancelling - 1)
        if p.cancelling == 0:
            prop = None
    if exc is not None and not A["__abort"]:
        tg_abort(ip, g)
    while A["__tasks"]:
        if A["__fut"] is None:
            A["__fut"] = AFut("taskgroup")
        try:
            ip.loop.wait_fut(A["__fut"])
        except AExc as e:
            if not e.value.cls.issub(CANCELLED):
                raise
            if not A["__abort"]:
                prop = e
                tg_abort(ip, g)
        A["__fut"] = None
    for x in A["__errors"]:
        if x.cls.issub(EXC["SystemExit"]) or x.cls.issub(EXC["KeyboardInterrupt"]):
            ip.throw(x)
    if A["__pcr"] and prop is not None and A["__errors"]:
        pass
    if A["__pcr"] and not (exc is not None and et.issub(CANCELLED)):
        p = A["__parent"]
        if p.must_cancel:
            p.must_cancel = False
        if p.cancelling:
            p.cancelling -= 1
    if prop is not None and not A["__errors"]:
        raise prop
    if exc is not None and not et.issub(CANCELLED):
        A["__errors"].append(ev)
    if A["__errors"]:
        base = all(x.cls.issub(EXC["Exception"]) for x in A["__errors"])
        ip.throw(ip.exc("ExceptionGroup" if base else "BaseExceptionGroup", "unhandled errors in a TaskGroup", exceptions=tuple(A["__errors"])))
    return False


TASKGROUP.ns.update({"__init__": ABuiltin("__init__", tg_init), "__aenter__": ABuiltin("__aenter__", tg_enter),
                     "__aexit__": ABuiltin("__aexit__", tg_exit), "create_task": ABuiltin("create_task", tg_create)})


def num(ip, v, default=60.0):
    v = ip.force(v)
    return v if isinstance(v, (int, float)) else None if v is None else default


def to_enter(ip, args, kw):
    t = args[0]
    t.attrs["__task"] = ip.task
    t.attrs["__cancelling"] = ip.task.cancelling if ip.task else 0
    t.attrs["__expired"] = False
    d = t.attrs["__delay"]
    t.attrs["__timer"] = None
    if d is not None and ip.task is not None:
        me = ip.task

        def fire():
            t.attrs["__expired"] = True
            ip.emit("timeout", delay=d, task=me)
            ip.loop.cancel(me)
        t.attrs["__timer"] = ip.loop.call_at(ip.loop.now + max(d, 0), fire)
    return t


def to_exit(ip, args, kw):
    t, et, ev, exc = args[:4]
    tm = t.attrs.get("__timer")
    if tm is not None:
        tm[2] = None
    if t.attrs["__expired"]:
        task = t.attrs["__task"]
        task.cancelling = max(0, task.cancelling - 1)
        if exc is not None and et.issub(CANCELLED) and task.cancelling <= t.attrs["__cancelling"]:
            ip.throw(EXC["TimeoutError"])
        if exc is None and task.must_cancel:
            task.must_cancel = False
    return False


TIMEOUT.ns.update({"__aenter__": ABuiltin("__aenter__", to_enter), "__aexit__": ABuiltin("__aexit__", to_exit),
                   "expired": ABuiltin("expired", lambda ip, a, k: a[0].attrs["__expired"]),
                   "reschedule": ABuiltin("reschedule", lambda ip, a, k: None), "when": ABuiltin("when", lambda ip, a, k: 0.0)})


def a_timeout(ip, args, kw):
    d = args[0] if args else kw.get("delay")
    return AInst(TIMEOUT, {"__delay": num(ip, d), "__expired": False})


def wait_all(ip, futs, return_when="ALL_COMPLETED", timeout=None):
    waiter = AFut("wait")
    waiter.attrs["__n"] = 0
    timer = None

    def ready():
        done = [f for f in futs if f.done]
        if return_when == "FIRST_COMPLETED":
            return bool(done)
        if return_when == "FIRST_EXCEPTION" and any(f.exc is not None and not f.cancelled for f in done):
            return True
        return len(done) == len(futs)
    if ready():
        return
    def cb(_):
        if not waiter.done and ready():
            ip.loop.finish(waiter, None)
    for f in futs:
        if not f.done:
            f.callbacks.append(cb)
    if timeout is not None:
        timer = ip.loop.call_at(ip.loop.now + timeout, lambda: ip.loop.finish(waiter, None))
    try:
        ip.loop.wait_fut(waiter)
    finally:
        for f in futs:
            ip.loop.remove_cb(f, cb)
        if timer is not None:
            timer[2] = None


def a_wait(ip, args, kw):
    src = args[0] if args else kw["fs"]

    def run():
        futs = []
        for f in ip.listof(src):
            f = ip.force(f)
            if not isinstance(f, AFut):
                ip.throw("TypeError", "Passing coroutines is forbidden, use tasks explicitly.")
            if f not in futs:
                futs.append(f)
        if not futs:
            ip.throw("ValueError", "Set of Tasks/Futures is empty.")
        wait_all(ip, futs, ip.force(kw.get("return_when", "ALL_COMPLETED")), num(ip, kw.get("timeout", args[1] if len(args) > 1 else None)))
        return (ASet([f for f in futs if f.done]), ASet([f for f in futs if not f.done]))
    return ACoro(run, "asyncio.wait")


def a_gather(ip, args, kw):
    rex = ip.truth(kw.get("return_exceptions", False))
    futs = [as_task(ip, a) for a in args]

    def run():
        if not futs:
            return AList([])
        try:
            wait_all(ip, futs, "ALL_COMPLETED" if rex else "FIRST_EXCEPTION")
            if not rex and any(f.done and f.cancelled for f in futs) and not all(f.done for f in futs):
                pass
        except AExc as e:
            if e.value.cls.issub(CANCELLED):
                for f in futs:
                    ip.loop.cancel(f)
            raise
        out = []
        for f in futs:
            if not f.done:
                bad = next((g for g in futs if g.done and (g.exc is not None or g.cancelled)), None)
                if bad is not None:
                    return f_result(ip, bad, [], {})
                wait_all(ip, futs)
            if f.exc is not None and not f.cancelled:
                if not rex:
                    raise AExc(f.exc.value)
                out.append(f.exc.value)
            elif f.cancelled:
                if not rex:
                    ip.throw(CANCELLED)
                out.append(ip.exc(CANCELLED))
            else:
                out.append(f.result)
        return AList(out)
    return ACoro(run, "asyncio.gather")


def a_wait_for(ip, args, kw):
    aw, timeout = args_of(ip, args, kw, ["fut", "timeout"])

    def run():
        t = AInst(TIMEOUT, {"__delay": num(ip, timeout), "__expired": False})
        to_enter(ip, [t], {})
        try:
            r = ip.await_(ip.force(aw))
        except AExc as e:
            to_exit(ip, [t, e.value.cls, e.value, e], {})
            raise
        to_exit(ip, [t, None, None, None], {})
        return r
    return ACoro(run, "asyncio.wait_for")


def a_as_completed(ip, args, kw):
    futs = [as_task(ip, a) for a in ip.listof(args[0])]
    order = []
    for f in futs:
        ip.loop.add_cb(f, lambda g: order.append(g))

    def gen():
        for i in range(len(futs)):
            def one(i=i):
                def run():
                    while len(order) <= i:
                        wait_all(ip, [f for f in futs if f not in order], "FIRST_COMPLETED")
                        if len(order) <= i:
                            ip.loop.pause()
                    return f_result(ip, order[i], [], {})
                return ACoro(run, "as_completed")
            yield one()
    return AIter(gen())


def a_shield(ip, args, kw):
    inner = as_task(ip, args[0])
    outer = AFut("shield")

    def cb(f):
        if not outer.done:
            ip.loop.finish(outer, f.result, f.cancelled, f.exc)
    ip.loop.add_cb(inner, cb)
    return outer


def a_sleep(ip, args, kw):
    def run():
        ip.loop.sleep(num(ip, args[0]) if args else 0)
        return args[1] if len(args) > 1 else None
    return ACoro(run, "asyncio.sleep")


def ev_init(ip, args, kw):
    args[0].attrs.update({"__set": False, "__waiters": []})


def ev_set(ip, args, kw):
    e = args[0].attrs
    e["__set"] = True
    ws, e["__waiters"] = e["__waiters"], []
    for w in ws:
        ip.loop.finish(w, True)


def ev_wait(ip, args, kw):
    e = args[0].attrs

    def run():
        if e["__set"]:
            return True
        f = AFut("event")
        e["__waiters"].append(f)
        ip.loop.wait_fut(f)
        return True
    return ACoro(run, "Event.wait")


EVENT.ns.update({"__init__": ABuiltin("__init__", ev_init), "set": ABuiltin("set", ev_set), "wait": ABuiltin("wait", ev_wait),
                 "is_set": ABuiltin("is_set", lambda ip, a, k: a[0].attrs["__set"]),
                 "clear": ABuiltin("clear", lambda ip, a, k: a[0].attrs.__setitem__("__set", False))})


def lk_init(ip, args, kw):
    n = ip.force(args[1]) if len(args) > 1 else ip.force(kw.get("value", 1))
    args[0].attrs.update({"__n": n if args[0].cls.issub(SEMAPHORE) else 1, "__waiters": []})


def lk_acquire(ip, args, kw):
    e = args[0].attrs

    def run():
        while e["__n"] <= 0:
            f = AFut("lock")
            e["__waiters"].append(f)
            ip.loop.wait_fut(f)
        e["__n"] -= 1
        return True
    return ACoro(run, "acquire")


def lk_release(ip, args, kw):
    e = args[0].attrs
    if args[0].cls.issub(LOCK) and e["__n"] >= 1:
        ip.throw("RuntimeError", "Lock is not acquired.")
    e["__n"] += 1
    while e["__waiters"]:
        w = e["__waiters"].pop(0)
        if not w.done:
            ip.loop.finish(w, True)
            break


for _c in (LOCK, SEMAPHORE):
    _c.ns.update({"__init__": ABuiltin("__init__", lk_init), "acquire": ABuiltin("acquire", lk_acquire), "release": ABuiltin("release", lk_release),
                  "locked": ABuiltin("locked", lambda ip, a, k: a[0].attrs["__n"] <= 0),
                  "__aenter__": ABuiltin("__aenter__", lambda ip, a, k: (ip.await_(lk_acquire(ip, a, k)), None)[1]),
                  "__aexit__": ABuiltin("__aexit__", lambda ip, a, k: (lk_release(ip, a, k), False)[1])})


def q_init(ip, args, kw):
    q = args[0]
    m = ip.force(args[1]) if len(args) > 1 else ip.force(kw.get("maxsize", 0))
    q.attrs.update({"__items": [], "__max": m, "__unfinished": 0, "__getters": [], "__putters": [], "__join": [], "__shut": False})


def q_wake(ip, lst):
    while lst:
        w = lst.pop(0)
        if not w.done:
            ip.loop.finish(w, None)
            break


def q_put_nowait(ip, args, kw):
    q = args[0].attrs
    item = args[1] if len(args) > 1 else kw["item"]
    if q["__shut"]:
        ip.throw(QUEUE_SHUTDOWN)
    if q["__max"] and len(q["__items"]) >= q["__max"]:
        ip.throw(QUEUE_FULL)
    q["__items"].append(item)
    q["__unfinished"] += 1
    ip.emit("q_put", queue=args[0], item=item)
    q_wake(ip, q["__getters"])


def q_pop(ip, qi):
    q = qi.attrs
    if qi.cls.issub(LIFOQUEUE):
        v = q["__items"].pop()
    elif qi.cls.issub(PRIOQUEUE):
        q["__items"] = sort_list(ip, q["__items"])
        v = q["__items"].pop(0)
    else:
        v = q["__items"].pop(0)
    q_wake(ip, q["__putters"])
    return v


def q_get_nowait(ip, args, kw):
    q = args[0].attrs
    if not q["__items"]:
        if q["__shut"]:
            ip.throw(QUEUE_SHUTDOWN)
        ip.throw(QUEUE_EMPTY)
    return q_pop(ip, args[0])


def q_get(ip, args, kw):
    q = args[0].attrs

    def run():
        while not q["__items"]:
            if q["__shut"]:
                ip.throw(QUEUE_SHUTDOWN)
            f = AFut("queue.get")
            q["__getters"].append(f)
            try:
                ip.loop.wait_fut(f)
            except AExc:
                if f in q["__getters"]:
                    q["__getters"].remove(f)
                if q["__items"] and f.done and not f.cancelled:
                    q_wake(ip, q["__getters"])
                raise
        return q_pop(ip, args[0])
    return ACoro(run, "Queue.get")


def q_put(ip, args, kw):
    q = args[0].attrs

    def run():
        while q["__max"] and len(q["__items"]) >= q["__max"] and not q["__shut"]:
            f = AFut("queue.put")
            q["__putters"].append(f)
            ip.loop.wait_fut(f)
        q_put_nowait(ip, args, kw)
    return ACoro(run, "Queue.put")


def q_task_done(ip, args, kw):
    q = args[0].attrs
    if q["__unfinished"] <= 0:
        ip.throw("ValueError", "task_done() called too many times")
    q["__unfinished"] -= 1
    if q["__unfinished"] == 0:
        ws, q["__join"] = q["__join"], []
        for w in ws:
            ip.loop.finish(w, None)


def q_join(ip, args, kw):
    q = args[0].attrs

    def run():
        if q["__unfinished"] > 0:
            f = AFut("queue.join")
            q["__join"].append(f)
            ip.loop.wait_fut(f)
    return ACoro(run, "Queue.join")


def q_shutdown(ip, args, kw):
    q = args[0].attrs
    q["__shut"] = True
    ip.emit("q_shutdown", queue=args[0])
    if ip.truth(args[1] if len(args) > 1 else kw.get("immediate", False)):
        while q["__items"]:
            q["__items"].pop()
            if q["__unfinished"] > 0:
                q["__unfinished"] -= 1
        if q["__unfinished"] == 0:
            for w in q["__join"]:
                ip.loop.finish(w, None)
    for w in q["__getters"] + q["__putters"]:
        ip.loop.finish(w, None)
    q["__getters"], q["__putters"] = [], []


QUEUE.ns.update({
    "__init__": ABuiltin("__init__", q_init), "put_nowait": ABuiltin("put_nowait", q_put_nowait), "get_nowait": ABuiltin("get_nowait", q_get_nowait),
    "get": ABuiltin("get", q_get), "put": ABuiltin("put", q_put), "task_done": ABuiltin("task_done", q_task_done), "join": ABuiltin("join", q_join),
    "shutdown": ABuiltin("shutdown", q_shutdown), "empty": ABuiltin("empty", lambda ip, a, k: not a[0].attrs["__items"]),
    "full": ABuiltin("full", lambda ip, a, k: bool(a[0].attrs["__max"]) and len(a[0].attrs["__items"]) >= a[0].attrs["__max"]),
    "qsize": ABuiltin("qsize", lambda ip, a, k: len(a[0].attrs["__items"])),
})


def fut_init(ip, cls, args, kw):
    return AFut("future")


CONSTRUCT[FUTURE] = fut_init


def a_run(ip, args, kw):
    raise Abort("asyncio.run")


def get_loop(ip, args, kw):
    if "loop" not in ip.singletons:
        ip.singletons["loop"] = AInst(LOOPCLS)
    return ip.singletons["loop"]


LOOPCLS = AClass("AbstractEventLoop", [OBJECT], module="asyncio")
LOOPCLS.ns.update({
    "create_task": ABuiltin("create_task", lambda ip, a, k: a_create_task(ip, a[1:], k)),
    "create_future": ABuiltin("create_future", lambda ip, a, k: AFut("future")),
    "time": ABuiltin("time", lambda ip, a, k: ip.loop.now),
    "call_soon": ABuiltin("call_soon", lambda ip, a, k: ip.loop.call_soon(lambda: _loopcb(ip, a[1], a[2:]))),
    "call_later": ABuiltin("call_later", lambda ip, a, k: (ip.loop.call_at(ip.loop.now + num(ip, a[1]), lambda: _loopcb(ip, a[2], a[3:])), None)[1]),
})


def _loopcb(ip, f, a):
    saved, ip.frames = ip.frames, []
    try:
        ip.call(f, list(a), {})
    except AExc as e:
        ip.emit("callback_error", exc=e, cb=f)
    finally:
        ip.frames = saved


ASYNCIO = {
    "create_task": ABuiltin("asyncio.create_task", a_create_task), "ensure_future": ABuiltin("asyncio.ensure_future", lambda ip, a, k: as_task(ip, a[0])),
    "TaskGroup": TASKGROUP, "timeout": ABuiltin("asyncio.timeout", a_timeout), "Timeout": TIMEOUT, "wait": ABuiltin("asyncio.wait", a_wait),
    "gather": ABuiltin("asyncio.gather", a_gather), "to_thread": ABuiltin("asyncio.to_thread", lambda ip, a, k: to_thread(ip, a, k)), "wait_for": ABuiltin("asyncio.wait_for", a_wait_for),
    "as_completed": ABuiltin("asyncio.as_completed", a_as_completed), "shield": ABuiltin("asyncio.shield", a_shield),
    "sleep": ABuiltin("asyncio.sleep", a_sleep), "Event": EVENT, "Lock": LOCK, "Semaphore": SEMAPHORE, "BoundedSemaphore": SEMAPHORE,
    "Queue": QUEUE, "LifoQueue": LIFOQUEUE, "PriorityQueue": PRIOQUEUE, "QueueShutDown": QUEUE_SHUTDOWN, "QueueEmpty": QUEUE_EMPTY,
    "QueueFull": QUEUE_FULL, "CancelledError": CANCELLED, "TimeoutError": EXC["TimeoutError"], "InvalidStateError": INVALID_STATE,
    "Task": TASK, "Future": FUTURE, "FIRST_COMPLETED": "FIRST_COMPLETED", "FIRST_EXCEPTION": "FIRST_EXCEPTION", "ALL_COMPLETED": "ALL_COMPLETED",
    "current_task": ABuiltin("asyncio.current_task", lambda ip, a, k: ip.task), "get_running_loop": ABuiltin("get_running_loop", get_loop),
    "get_event_loop": ABuiltin("get_event_loop", get_loop), "run": ABuiltin("asyncio.run", a_run), "AbstractEventLoop": LOOPCLS,
    "iscoroutine": ABuiltin("iscoroutine", lambda ip, a, k: isinstance(ip.force(a[0]), ACoro)),
    "iscoroutinefunction": ABuiltin("iscoroutinefunction", lambda ip, a, k: isinstance(ip.force(a[0]), AFunc) and func_info_any(ip.force(a[0])).is_async),
}


# --------------------------------------------------------------------------- copy / json / misc
def deepcopy(ip, v, memo=None):
    if memo is None:
        memo = {}
    if isinstance(v, Lazy):
        if v.chosen is not None:
            return deepcopy(ip, ip.force(v), memo) if v.value is not MISSING else v
        if id(v) in memo:
            return memo[id(v)]
        d = Lazy.derive(v, lambda ip, x: deepcopy(ip, x, memo))
        memo[id(v)] = d
        return d
    if isinstance(v, tuple):
        return tuple(deepcopy(ip, x, memo) for x in v)
    if isinstance(v, Sym):
        k = v.core.cls
        if k is not None and not (k.issub(DICT) or k.issub(LIST) or k.issub(SET)):
            return v
        if id(v) in memo:
            return memo[id(v)]
        n = Sym(v.name, core=v.core)
        memo[id(v)] = n
        n.attrs = {kk: deepcopy(ip, x, memo) for kk, x in v.attrs.items()}
        n.as_dict = deepcopy(ip, v.as_dict, memo) if v.as_dict else None
        n.as_list = deepcopy(ip, v.as_list, memo) if v.as_list else None
        return n
    if not isinstance(v, Heap):
        return v
    if id(v) in memo:
        return memo[id(v)]
    if isinstance(v, AList):
        n = AList((), v.cls)
        memo[id(v)] = n
        n.items = [deepcopy(ip, x, memo) for x in v.items]
    elif isinstance(v, ADict):
        op = v.open
        n = ADict(None, v.cls)
        memo[id(v)] = n
        if op:
            def opener(ip, d, key, h):
                x = ip.dict_get(v, key)
                return x if x is MISSING else deepcopy(ip, x, memo)
            n.open = opener
            n.enum = lambda ip, d: [k for k, _ in ip.dict_items(v)]
        n.absent = set(v.absent)
        n.default_factory = v.default_factory
        for h, (k, x) in v.e.items():
            n.e[h] = [k, deepcopy(ip, x, memo)]
    elif isinstance(v, ASet):
        n = ASet((), v.cls)
        memo[id(v)] = n
        n.e = dict(v.e)
    elif isinstance(v, AInst):
        m = v.cls.lookup("__deepcopy__")
        if isinstance(m, AFunc):
            return ip.call(ABound(m, v), [ADict()], {})
        if "shared" in V._flags(v.cls) or v.cls.module == "asyncio":
            return v
        n = AInst(v.cls)
        memo[id(v)] = n
        n.attrs = {k: deepcopy(ip, x, memo) if not callable(x) else x for k, x in v.attrs.items()}
    else:
        return v
    return n


def shallow(ip, v):
    v = ip.force(v)
    if isinstance(v, AList):
        return AList(v.items, v.cls)
    if isinstance(v, ADict):
        n = d_copy(ip, v, [], {})
        n.cls = v.cls
        return n
    if isinstance(v, ASet):
        return s_new(ip, v, dict(v.e))
    if isinstance(v, AInst):
        return AInst(v.cls, dict(v.attrs))
    if isinstance(v, Sym):
        n = Sym(v.name, core=v.core)
        n.attrs = dict(v.attrs)
        n.as_dict = d_copy(ip, v.as_dict, [], {}) if v.as_dict else None
        n.as_list = AList(v.as_list.items) if v.as_list else None
        return n
    return v


def copy_replace(ip, args, kw):
    o = ip.force(args[0])
    m = ip._getattr(o, "__replace__")
    if m is MISSING:
        ip.throw("TypeError", f"replace() does not support {ip.class_of(o).name} objects")
    return ip.call(m, [], kw)


JSON_STR = "json-text"


def json_check(ip, v, depth=0):
    """Raise what json.dumps raises for `v`; returns True when the value is entirely concrete."""
    v = ip.force(v)
    if isinstance(v, (AList, tuple)) or isinstance(v, AInst) and _seq(v) is not None:
        return all([json_check(ip, x) for x in (_seq(v))])
    if isinstance(v, ADict):
        ok = True
        for k, x in ip.dict_items(v):
            k = ip.force(k)
            if not isinstance(k, (str, int, float, bool, type(None), Sym, AStr)):
                ip.throw("TypeError", f"keys must be str, int, float, bool or None, not {ip.class_of(k).name}")
            ok = json_check(ip, x) and not isinstance(k, (Sym, AStr)) and ok
        return ok and not v.open
    if isinstance(v, bytes):
        ip.throw("TypeError", "Object of type bytes is not JSON serializable")
    if _is_raw(v):
        return True
    if isinstance(v, Sym):
        k = v.core.cls
        if k is not None and (k.issub(DATETIME) or k.issub(TIMEDELTA) or k.issub(BYTES) or k.issub(SET)):
            ip.throw("TypeError", f"Object of type {k.name} is not JSON serializable")
        return False
    if isinstance(v, AStr):
        return False
    ip.throw("TypeError", f"Object of type {ip.class_of(v).name} is not JSON serializable")


def host_json(ip, v):
    v = ip.force(v)
    if isinstance(v, (AList, tuple)) or isinstance(v, AInst):
        return [host_json(ip, x) for x in _seq(v)]
    if isinstance(v, ADict):
        return {(_plain(ip.force(k)) if not isinstance(ip.force(k), CBool) else bool(ip.force(k))): host_json(ip, x) for k, x in ip.dict_items(v)}
    if isinstance(v, CBool):
        return int(v)
    return _plain(v)


def snapshot(ip, v):
    return deepcopy(ip, v)


def json_dumps(ip, args, kw):
    import json
    v = args[0] if args else kw["obj"]
    if "default" in kw and ip.force(kw["default"]) is not None:
        s = ip.fresh("json", STR, True)
        s.core.memo[JSON_STR] = snapshot(ip, v)
        return s
    concrete = json_check(ip, v)
    if concrete and not ip.hooks.get("opaque_json"):
        o = {k: ip.force(x) for k, x in kw.items() if k in ("sort_keys", "indent", "separators", "ensure_ascii")}
        if all(_is_raw(x) for x in o.values()):
            return json.dumps(host_json(ip, v), **o)
    s = ip.fresh("json", STR, True)
    s.core.memo[JSON_STR] = snapshot(ip, v)
    return s


def plain_json(ip, v):
    """The JSON image of an abstract value (what loads(dumps(v)) gives)."""
    v = ip.force(v)
    if isinstance(v, AList) or isinstance(v, (tuple, AInst)):
        return AList([plain_json(ip, x) for x in _seq(v)])
    if isinstance(v, ADict):
        d = ADict()
        for k, x in ip.dict_items(v):
            k = ip.force(k)
            ip.dict_set(d, str(k) if isinstance(k, str) else k if isinstance(k, (Sym, AStr)) else {True: "true", False: "false", None: "null"}.get(k, str(k)) if isinstance(k, (bool, type(None))) else str(k), plain_json(ip, x))
        if v.open:
            d.open = chain_open(d, v)
        return d
    if isinstance(v, CBool):
        return int(v)
    if isinstance(v, (CStr, CInt, CUint, CDouble)):
        return _plain(v)
    return v


def to_abs(v, lists=AList):
    if isinstance(v, dict):
        return ADict([(k, to_abs(x)) for k, x in v.items()])
    if isinstance(v, list):
        return AList([to_abs(x) for x in v])
    return v


def json_loads(ip, args, kw):
    import json
    v = ip.force(args[0] if args else kw["s"])
    if isinstance(v, AStr) and len(v.parts) == 1:
        v = v.parts[0]
    if isinstance(v, Sym):
        if JSON_STR in v.core.memo:
            return plain_json(ip, snapshot(ip, v.core.memo[JSON_STR]))
        k = v.core.cls
        h = ip.hooks.get("json_loads")
        if h:
            r = h(ip, v)
            if r is not NotImplemented:
                return r
        if k is not None and not (k.issub(STR) or k.issub(BYTES)):
            ip.throw("TypeError", f"the JSON object must be str, bytes or bytearray, not {k.name}")
        if ip.choose(2, ("json.loads", v.name)):
            ip.throw(JSON_DECODE_ERROR, "Expecting value")
        return ip.memo_sym(v, ("json",), f"json({v.name})")
    if isinstance(v, (str, bytes)):
        try:
            return to_abs(json.loads(v))
        except json.JSONDecodeError as e:
            ip.throw(JSON_DECODE_ERROR, str(e))
        except Exception as e:
            ip.host_exc(e)
    if isinstance(v, AStr):
        if ip.choose(2, ("json.loads", repr(v))):
            ip.throw(JSON_DECODE_ERROR, "Expecting value")
        return ip.fresh("json")
    ip.throw("TypeError", f"the JSON object must be str, bytes or bytearray, not {ip.class_of(v).name}")


# re ------------------------------------------------------------------------
PATTERN = AClass("Pattern", [OBJECT], module="re")
MATCH = AClass("Match", [OBJECT], module="re")


def re_compile(ip, args, kw):
    p = ip.force(args[0])
    if isinstance(p, AInst):
        return p
    try:
        host = _re.compile(p, *[ip.force(x) for x in args[1:]])
    except _re.error as e:
        ip.throw(RE_ERROR, str(e))
    except TypeError:
        return ip.unmodelled("re.compile of an unknown pattern")
    return AInst(PATTERN, {"pattern": p, "__host": host})


def re_do(ip, pat, how, text, rest=()):
    text = ip.force(text)
    if isinstance(text, AStr) and len(text.parts) == 1:
        text = text.parts[0]
    host = pat.attrs["__host"]
    if isinstance(text, str):
        if how in ("match", "search", "fullmatch"):
            m = getattr(host, how)(str(text))
            return None if m is None else AInst(MATCH, {"__m": m})
        if how == "findall":
            return AList(host.findall(str(text)))
        if how == "finditer":
            return AList([AInst(MATCH, {"__m": m}) for m in host.finditer(str(text))])
        if how == "split":
            return AList(host.split(str(text)))
    if text is None or isinstance(text, (int, AList, ADict)):
        ip.throw("TypeError", "expected string or bytes-like object")
    h = ip.hooks.get("re")
    if h:
        r = h(ip, pat, how, text)
        if r is not NotImplemented:
            return r
    ip.unmodelled(f"re.{how} on {text!r}")
    return Sym(f"re.{how}")


def m_group(ip, obj, a):
    m = obj.attrs["__m"]
    try:
        return m.group(*[ip.force(x) for x in a])
    except IndexError as e:
        ip.host_exc(e)


def re_sub(ip, pat, repl, text, rest=()):
    text, repl = ip.force(text), ip.force(repl)
    if isinstance(text, str):
        if isinstance(repl, str):
            return pat.attrs["__host"].sub(repl, str(text))

        def f(m):
            r = ip.call(repl, [AInst(MATCH, {"__m": m})], {})
            if not isinstance(r, str):
                raise Abort("re.sub with unknown replacement")
            return r
        return pat.attrs["__host"].sub(f, str(text))
    return ip.fresh("sub", STR)


PATTERN.ns.update({n: ABuiltin(n, (lambda n: lambda ip, a, k: re_do(ip, a[0], n, a[1] if len(a) > 1 else k["string"]))(n)) for n in ("match", "search", "fullmatch", "findall", "finditer", "split")})
PATTERN.ns["sub"] = ABuiltin("sub", lambda ip, a, k: re_sub(ip, a[0], a[1], a[2]))
MATCH.ns.update({
    "group": ABuiltin("group", lambda ip, a, k: m_group(ip, a[0], a[1:])), "groups": ABuiltin("groups", lambda ip, a, k: tuple(a[0].attrs["__m"].groups())),
    "groupdict": ABuiltin("groupdict", lambda ip, a, k: ADict(dict(a[0].attrs["__m"].groupdict()))),
    "__getitem__": ABuiltin("__getitem__", lambda ip, a, k: m_group(ip, a[0], a[1:])),
    "start": ABuiltin("start", lambda ip, a, k: a[0].attrs["__m"].start(*[ip.force(x) for x in a[1:]])),
    "end": ABuiltin("end", lambda ip, a, k: a[0].attrs["__m"].end(*[ip.force(x) for x in a[1:]])),
})


def re_mod(how):
    return ABuiltin(f"re.{how}", lambda ip, a, k: re_do(ip, re_compile(ip, [a[0]], {}), how, a[1]))


# time / datetime / logging / base64 ------------------------------------------
def t_now(ip, args, kw):
    ip.clock += 1
    return ip.clock * 1.0


LOGGER = AClass("Logger", [OBJECT], module="logging")
LOGGER.flags.add("shared")


def log_call(ip, args, kw):
    return None


for _n in ("debug", "info", "warning", "error", "exception", "critical", "log", "setLevel", "addHandler", "warn", "addFilter"):
    LOGGER.ns[_n] = ABuiltin(_n, log_call)
LOGGER.ns["isEnabledFor"] = ABuiltin("isEnabledFor", lambda ip, a, k: False)
LOGGER.ns["getChild"] = ABuiltin("getChild", lambda ip, a, k: a[0])


def b64(which):
    def f(ip, args, kw):
        import base64
        v = ip.force(args[0])
        if isinstance(v, (bytes, str)):
            try:
                return getattr(base64, which)(v)
            except Exception as e:
                ip.host_exc(e)
        if v is None or isinstance(v, (int, float, AList, ADict)):
            ip.throw("TypeError", "a bytes-like object is required")
        if isinstance(v, Sym):
            return ip.memo_sym(v, (which,), f"{which}({v.name})", BYTES)
        return ip.fresh(which, BYTES)
    return ABuiltin(which, f)


# functools / itertools / operator ------------------------------------------
def f_reduce(ip, args, kw):
    it = ip.iter_values(args[1])
    if len(args) > 2:
        acc = args[2]
    else:
        try:
            acc = next(it)
        except StopIteration:
            ip.throw("TypeError", "reduce() of empty iterable with no initial value")
    for x in it:
        acc = ip.call(args[0], [acc, x], {})
    return acc


def f_partial(ip, args, kw):
    fn, pre = args[0], list(args[1:])
    return ABuiltin("partial", lambda ip, a, k: ip.call(fn, pre + list(a), {**kw, **k}))


def f_cache(ip, args, kw):
    if len(args) == 1 and isinstance(ip.force(args[0]), (AFunc, ABuiltin)):
        fn = ip.force(args[0])

        def cached(ip, a, k):
            m = ip.singletons.setdefault(("lru", id(fn)), {})
            key = (tuple(ip.hk(x) for x in a), tuple((n, ip.hk(v)) for n, v in sorted(k.items())))
            if key not in m:
                m[key] = ip.call(fn, a, k)
            return m[key]
        return ABuiltin(getattr(fn, "name", "cached"), cached)
    return ABuiltin("cache-decorator", f_cache)


CMPKEY = AClass("K", [OBJECT], module="functools")
AUTO = AClass("auto", [OBJECT], module="enum")


def f_wraps(ip, args, kw):
    src = ip.force(args[0])

    def deco(ip, a, k):
        f = ip.force(a[0])
        if isinstance(f, (AFunc, ABuiltin)):
            n = ip.getattr_(src, "__name__", MISSING)
            if n is not MISSING:
                f.attrs["__name__"] = n
            f.attrs["__wrapped__"] = src
        return f
    return ABuiltin("wraps", deco)


def f_total_ordering(ip, args, kw):
    ip.force(args[0]).flags.add("total_ordering")
    return args[0]


def f_singledispatch(ip, args, kw):
    base = ip.force(args[0])
    impls = [(OBJECT, base)]

    def pick(c):
        for k in c.mro:
            for t, f in reversed(impls):
                if t is k:
                    return f
        return base

    def run(ip, a, k):
        v = ip.force(a[0])
        c = ip.class_of(v)
        if c is None:
            best = base
            for t, f in impls:
                if t is not OBJECT and ip.isinstance_(v, t):
                    best = f
            return ip.call(best, a, k)
        return ip.call(pick(c), a, k)

    def register(ip, a, k):
        t = ip.force(a[0])
        ts = [t] if isinstance(t, AClass) else [NONE if x is None else x for x in t.members] if isinstance(t, Union_) else None
        if ts is not None:
            if len(a) > 1:
                impls.extend((t, a[1]) for t in ts)
                return a[1]

            def deco(ip, b, k2):
                impls.extend((t, b[0]) for t in ts)
                return b[0]
            return ABuiltin("register", deco)
        if isinstance(t, AFunc) and t.node.args.args and t.node.args.args[0].annotation is not None:
            c = ip.force(ip.ev(t.node.args.args[0].annotation, t.env))
            for x in (c.members if isinstance(c, Union_) else [c]):
                impls.append((NONE if x is None else x, t))
            return t
        return ip.unmodelled("singledispatch registration")
    b = ABuiltin(base.name, run)
    b.attrs["register"] = ABuiltin("register", register)
    b.attrs["dispatch"] = ABuiltin("dispatch", lambda ip, a, k: pick(ip.force(a[0])))
    return b


def it_host(fn):
    """An itertools function over the listed items of its iterable arguments."""
    return ABuiltin(fn.__name__, lambda ip, a, k: AIter(iter(fn(ip, a, {n: ip.force(v) for n, v in k.items()}))))


def it_accumulate(ip, a, k):
    f = ip.force(a[1] if len(a) > 1 else k.get("func"))
    out = [k["initial"]] if k.get("initial") is not None else []
    for x in ip.iter_values(a[0]):
        out.append(x if not out else ip.binop(ast.Add(), out[-1], x) if f is None else ip.call(f, [out[-1], x], {}))
    return out


def it_batched(ip, a, k):
    import itertools
    return itertools.batched(ip.listof(a[0]), ip.force(a[1] if len(a) > 1 else k["n"]))


def it_repeat(ip, a, k):
    import itertools
    n = ip.force(a[1]) if len(a) > 1 else k.get("times")
    return itertools.repeat(a[0]) if n is None else itertools.repeat(a[0], n)


def it_filterfalse(ip, a, k):
    f = ip.force(a[0])
    for x in ip.iter_values(a[1]):
        if not ip.truth(x if f is None else ip.call(f, [x], {})):
            yield x


def it_compress(ip, a, k):
    for x, y in zip(ip.listof(a[0]), ip.listof(a[1])):
        if ip.truth(y):
            yield x


def it_pairwise(ip, a, k):
    xs = ip.listof(a[0])
    return zip(xs, xs[1:])


def it_combi(name):
    def run(ip, a, k):
        import itertools
        r = ip.force(a[1]) if len(a) > 1 else k.get("r")
        xs = ip.listof(a[0])
        return getattr(itertools, name)(xs, *([] if r is None else [r]))
    run.__name__ = name
    return run


def it_starmap(ip, a, k):
    for x in ip.iter_values(a[1]):
        yield ip.call(a[0], ip.listof(x), {})


def it_tee(ip, a, k):
    xs = ip.listof(a[0])
    return [AIter(iter(list(xs))) for _ in range(ip.force(a[1]) if len(a) > 1 else 2)]


def identity_deco(ip, args, kw):
    if len(args) == 1 and not kw:
        return args[0]
    return ABuiltin("deco", lambda ip, a, k: a[0])


def it_chain(ip, args, kw):
    def gen():
        for a in args:
            yield from ip.iter_values(a)
    return AIter(gen())


def it_from_iterable(ip, args, kw):
    def gen():
        for a in ip.iter_values(args[0]):
            yield from ip.iter_values(a)
    return AIter(gen())


CHAIN = AClass("chain", [OBJECT], module="itertools")
CHAIN.ns["from_iterable"] = AStatic(ABuiltin("from_iterable", it_from_iterable))
CONSTRUCT[CHAIN] = lambda ip, cls, a, k: it_chain(ip, a, k)


def it_list(f):
    def g(ip, args, kw):
        return AIter(iter(f(ip, args, kw)))
    return g


def it_islice(ip, args, kw):
    import itertools
    return AIter(itertools.islice(ip.iter_values(args[0]), *[ip.force(x) for x in args[1:]]))


def it_zip_longest(ip, args, kw):
    import itertools
    return AIter(iter(list(itertools.zip_longest(*[ip.listof(a) for a in args], fillvalue=kw.get("fillvalue")))))


def it_count(ip, args, kw):
    import itertools
    return AIter(itertools.count(*[ip.force(x) for x in args]))


def it_product(ip, args, kw):
    import itertools
    return AIter(iter(list(itertools.product(*[ip.listof(a) for a in args]))))


def it_groupby(ip, args, kw):
    key = kw.get("key", args[1] if len(args) > 1 else None)
    out = []
    for x in ip.iter_values(args[0]):
        k = ip.call(key, [x], {}) if key is not None else x
        if out and ip.eq(out[-1][0], k):
            out[-1][1].items.append(x)
        else:
            out.append((k, AList([x])))
    return AIter(iter(out))


def it_takewhile(keep):
    def f(ip, args, kw):
        def gen():
            dropping = True
            for x in ip.iter_values(args[1]):
                t = ip.truth(ip.call(args[0], [x], {}))
                if keep:
                    if not t:
                        return
                    yield x
                else:
                    if dropping and t:
                        continue
                    dropping = False
                    yield x
        return AIter(gen())
    return f


def op_getter(kind):
    def f(ip, args, kw):
        names = [ip.force(a) for a in args]

        def g(ip, a, k):
            if kind == "item":
                r = [ip.getitem(a[0], n) for n in names]
            else:
                r = []
                for n in names:
                    v = a[0]
                    for p in n.split("."):
                        v = ip.getattr_(v, p)
                    r.append(v)
            return r[0] if len(r) == 1 else tuple(r)
        return ABuiltin(f"{kind}getter", g)
    return f


# contextlib -----------------------------------------------------------------
def ctxmanager(ip, args, kw):
    fn = ip.force(args[0])

    def make(ip, a, k):
        return AGenCM(fn, list(a), k)
    b = ABuiltin(fn.name, make)
    return b


SUPPRESS = AClass("suppress", [OBJECT], module="contextlib")
SUPPRESS.ns.update({
    "__init__": ABuiltin("__init__", lambda ip, a, k: a[0].attrs.__setitem__("__exc", tuple(a[1:]))),
    "__enter__": ABuiltin("__enter__", lambda ip, a, k: None),
    "__exit__": ABuiltin("__exit__", lambda ip, a, k: a[1] is not None and any(a[1].issub(ip.force(x)) for x in a[0].attrs["__exc"])),
})
NULLCTX = AClass("nullcontext", [OBJECT], module="contextlib")
NULLCTX.ns.update({
    "__init__": ABuiltin("__init__", lambda ip, a, k: a[0].attrs.__setitem__("__r", a[1] if len(a) > 1 else None)),
    "__enter__": ABuiltin("__enter__", lambda ip, a, k: a[0].attrs["__r"]), "__exit__": ABuiltin("__exit__", lambda ip, a, k: False),
    "__aenter__": ABuiltin("__aenter__", lambda ip, a, k: a[0].attrs["__r"]), "__aexit__": ABuiltin("__aexit__", lambda ip, a, k: False),
})

# dataclasses / enum / typing ---------------------------------------------------


def dc_apply(ip, cls, kw):
    cls.flags.add("dc")
    for flag, key, on in (("frozen", "frozen", True), ("order", "order", True), ("noeq", "eq", False), ("hashed", "unsafe_hash", True)):
        if bool(ip.force(kw.get(key, not on))) is on:
            cls.flags.add(flag)
    fields = []
    for b in reversed(cls.mro):
        for n, ann in getattr(b, "ann", []):
            if "ClassVar" in ast.dump(ann):
                continue
            d = b.ns.get(n, MISSING)
            if isinstance(d, AInst) and d.cls is DCFIELD:
                f = d.attrs
                d = ("factory", f["default_factory"]) if "default_factory" in f else f.get("default", MISSING)
                if d is MISSING:
                    b.ns.pop(n, None)
                else:
                    b.ns[n] = d
            fields = [(x, y) for x, y in fields if x != n] + [(n, d)]
    cls.fields = fields
    return cls


DCFIELD = AClass("Field", [OBJECT], module="dataclasses")


def dataclass(ip, args, kw):
    if args:
        return dc_apply(ip, ip.force(args[0]), kw)
    return ABuiltin("dataclass", lambda ip, a, k: dc_apply(ip, ip.force(a[0]), kw))


def dc_fields(ip, args, kw):
    o = ip.force(args[0])
    c = o if isinstance(o, AClass) else ip.class_of(o)
    if c is None or "dc" not in V._flags(c):
        ip.throw("TypeError", "must be called with a dataclass type or instance")
    return tuple(AInst(DCFIELD, {"name": f, "default": d}) for f, d in c.fields)


def dc_dict(ip, v, tup=False):
    v = ip.force(v)
    if isinstance(v, AInst) and "dc" in V._flags(v.cls):
        return tuple(dc_dict(ip, v.attrs[f], tup) for f, _ in v.cls.fields) if tup else ADict([(f, dc_dict(ip, v.attrs[f])) for f, _ in v.cls.fields])
    if isinstance(v, AInst) and "nt" in V._flags(v.cls):
        return AInst(v.cls, {f: dc_dict(ip, x, tup) for f, x in v.attrs.items()})
    if isinstance(v, AList):
        return AList([dc_dict(ip, x, tup) for x in v.items])
    if isinstance(v, tuple):
        return tuple(dc_dict(ip, x, tup) for x in v)
    if isinstance(v, ADict):
        return ADict([(k, dc_dict(ip, x, tup)) for k, x in ip.dict_items(v)])
    return deepcopy(ip, v)


def dc_replace(ip, args, kw):
    o = ip.force(args[0])
    if "dc" in V._flags(o.cls):
        return ip.instantiate(o.cls, [], {**{f: o.attrs[f] for f, _ in o.cls.fields}, **kw})
    n = AInst(o.cls, dict(o.attrs))
    n.attrs.update(kw)
    return n


NAMEDTUPLE = AClass("NamedTuple", [OBJECT], module="typing")
TYPEDDICT = AClass("TypedDict", [OBJECT], module="typing")
PROTOCOL = AClass("Protocol", [OBJECT], module="typing")
GENERIC = AClass("Generic", [OBJECT], module="typing")


def nt_factory(ip, args, kw):
    fields = ip.force(args[1])
    if isinstance(fields, str):
        names = fields.replace(",", " ").split()
    else:
        names = [ip.force(x if not isinstance(ip.force(x), tuple) else ip.force(x)[0]) for x in ip.listof(fields)]
    dfl = ip.listof(kw["defaults"]) if "defaults" in kw else []
    fs = [(n, MISSING) for n in names]
    for i, d in enumerate(dfl):
        fs[len(fs) - len(dfl) + i] = (names[len(fs) - len(dfl) + i], d)
    c = AClass(ip.force(args[0]), [TUPLE], {}, None, "repo", fs)
    c.flags.add("nt")
    return c


CONSTRUCT[NAMEDTUPLE] = lambda ip, cls, a, k: nt_factory(ip, a, k)
ENUM = AClass("Enum", [OBJECT], module="enum")
STRENUM = AClass("StrEnum", [ENUM], module="enum")
INTENUM = AClass("IntEnum", [ENUM], module="enum")


def tgen(name):
    return ABuiltin(f"typing.{name}", lambda ip, a, k: a[-1] if a else None)


TYPING = {n: tgen(n) for n in ("Any", "Optional", "Union", "Literal", "TypeIs", "TypeGuard", "NotRequired", "Required", "ClassVar", "Final", "Self",
                               "Annotated", "Never", "NoReturn", "Coroutine", "AsyncIterator", "AsyncGenerator", "Generator", "Type", "Concatenate", "Unpack",
                               "overload", "final", "runtime_checkable", "no_type_check", "override")}
for _n in ("Sequence", "Iterable", "Mapping", "MutableMapping", "MutableSequence", "Callable", "Awaitable", "Collection", "Hashable", "Iterator", "Sized", "Container", "AbstractSet"):
    TYPING[_n] = AClass(_n, [OBJECT], module="typing")
TYPING.update({
    "List": LIST, "Dict": DICT, "Tuple": TUPLE, "Set": SET, "FrozenSet": FROZENSET, "NamedTuple": NAMEDTUPLE, "TypedDict": TYPEDDICT,
    "Protocol": PROTOCOL, "Generic": GENERIC, "TYPE_CHECKING": False, "cast": ABuiltin("cast", lambda ip, a, k: a[1]),
    "TypeVar": ABuiltin("TypeVar", lambda ip, a, k: Sym(f"type:{a[0]}")), "ParamSpec": ABuiltin("ParamSpec", lambda ip, a, k: Sym(f"type:{a[0]}")),
    "NewType": ABuiltin("NewType", lambda ip, a, k: ABuiltin("newtype", lambda ip, b, k2: b[0])), "TypeAlias": Sym("type:alias"),
    "assert_never": ABuiltin("assert_never", lambda ip, a, k: ip.throw("AssertionError", "unreachable")),
})
TYPING["Set"] = SET

# lark -----------------------------------------------------------------------------
TREE = AClass("Tree", [OBJECT], module="lark.tree")
_HOSTCLS[Tok] = TOKEN


def tree_subtrees(ip, t):
    q = [t]
    seen = {}
    for st in q:
        if id(st) in seen:
            continue
        seen[id(st)] = st
        q += [c for c in reversed([ip.force(x) for x in ip.force(st.attrs["children"]).items]) if isinstance(c, AInst) and c.cls is TREE and id(c) not in seen]
    return list(reversed(list(seen.values())))


def tree_topdown(ip, t):
    out = [t]
    for c in ip.force(t.attrs["children"]).items:
        c = ip.force(c)
        if isinstance(c, AInst) and c.cls is TREE:
            out += tree_topdown(ip, c)
    return out


TREE.ns.update({
    "__init__": ABuiltin("__init__", lambda ip, a, k: a[0].attrs.update({"data": a[1], "children": a[2]})),
    "iter_subtrees": ABuiltin("iter_subtrees", lambda ip, a, k: AIter(iter(ast_subtrees(ip, a[0])))),
    "iter_subtrees_topdown": ABuiltin("iter_subtrees_topdown", lambda ip, a, k: AIter(iter(tree_topdown(ip, a[0])))),
    "find_data": ABuiltin("find_data", lambda ip, a, k: AIter(iter([t for t in tree_subtrees(ip, a[0]) if ip.eq(t.attrs["data"], a[1])]))),
    "find_pred": ABuiltin("find_pred", lambda ip, a, k: AIter(iter([t for t in tree_subtrees(ip, a[0]) if ip.truth(ip.call(a[1], [t], {}))]))),
    "pretty": ABuiltin("pretty", lambda ip, a, k: "<tree>"),
    "scan_values": ABuiltin("scan_values", lambda ip, a, k: AIter(iter([ip.force(c) for t in tree_topdown(ip, a[0]) for c in ip.force(t.attrs["children"]).items if not isinstance(ip.force(c), AInst) and ip.truth(ip.call(a[1], [c], {}))]))),
})


def ast_subtrees(ip, t):
    return tree_subtrees(ip, t) if "children" in t.attrs else []


def mk_tree(data, children):
    return AInst(TREE, {"data": data, "children": AList(children)})


# celpy ---------------------------------------------------------------------------
RUNNER = AClass("Runner", [OBJECT], module="celpy")
RUNNER_I = AClass("InterpretedRunner", [RUNNER], module="celpy")
ENVIRONMENT = AClass("Environment", [OBJECT], module="celpy")


def env_compile(ip, args, kw):
    text = args[1] if len(args) > 1 else kw.get("text")
    text = ip.force(text)
    h = ip.hooks.get("cel_compile")
    if h:
        r = h(ip, text)
        if r is not NotImplemented:
            return r
    kt = ip.class_of(text)
    if kt is not None and not kt.issub(STR):
        ip.throw("TypeError", "CEL source must be text")
    t = AInst(TREE, {"data": "expr", "text": text, "children": AList([])})
    return t


def env_program(ip, args, kw):
    e = ip.force(args[1] if len(args) > 1 else kw.get("expr"))
    r = AInst(RUNNER_I, {"ast": e, "text": e.attrs.get("text") if isinstance(e, AInst) else None, "logger": AInst(LOGGER),
                         "functions": args[2] if len(args) > 2 else kw.get("functions")})
    return r


def runner_evaluate(ip, args, kw):
    r = args[0]
    act = args[1] if len(args) > 1 else kw.get("context", kw.get("activation"))
    e = ip.emit("evaluate", runner=r, activation=act)
    h = ip.hooks.get("cel_evaluate")
    if h is None:
        return ip.unmodelled("Runner.evaluate")
    try:
        e.data["result"] = v = h(ip, r, act)
    except AExc as x:
        e.data["exc"] = x.value
        raise
    return v


RUNNER.ns["evaluate"] = ABuiltin("evaluate", runner_evaluate)
ENVIRONMENT.ns.update({"__init__": ABuiltin("__init__", lambda ip, a, k: a[0].attrs.update({"annotations": k.get("annotations")})),
                       "compile": ABuiltin("compile", env_compile), "program": ABuiltin("program", env_program)})


def json_to_cel(ip, v):
    if isinstance(v, Lazy) and v.chosen is None:
        return Lazy.derive(v, lambda ip, x: json_to_cel(ip, x))
    v = ip.force(v)
    if isinstance(v, bool):
        return CBool(v)
    if isinstance(v, float):
        return CDouble(v)
    if isinstance(v, CBool):
        return CInt(v)
    if isinstance(v, int):
        if not -2 ** 63 <= v < 2 ** 63:
            ip.throw("ValueError", "overflow")
        return CInt(v)
    if isinstance(v, str):
        return CStr(v)
    if v is None:
        return None
    if isinstance(v, (tuple, AList)):
        return AList([json_to_cel(ip, x) for x in (_seq(v))], C_LIST)
    if isinstance(v, AInst) and _seq(v) is not None:
        return AList([json_to_cel(ip, x) for x in (_seq(v))], C_LIST)
    if isinstance(v, ADict):
        d = ADict(cls=C_MAP)
        for h in list(v.e):
            k, x = v.e[h]
            kk = json_to_cel(ip, k)
            d.e[ip.hk(kk)] = [kk, json_to_cel(ip, x)]
        if v.open:
            def opener(ip, dd, key, h):
                x = ip.dict_get(v, key)
                return x if x is MISSING else json_to_cel(ip, x)
            d.open = opener
            d.enum = lambda ip, dd: [k for k, _ in ip.dict_items(v)]
        return d
    if isinstance(v, Sym):
        k = v.core.cls
        if k is None:
            n = ip.memo_sym(v, ("cel",), v.name)
            n.core.truth = v.core.truth
            return v
        if k.issub(STR):
            return c_cstring(ip, C_STRING, [v], {})
        if k is BOOL:
            return CBool(1 if ip.truth(v) else 0)
        if k.issub(INT):
            return v if k is C_INT else ip.memo_sym(v, ("as", "IntType"), v.name, C_INT, v.core.truth)
        if k.issub(DICT):
            return json_to_cel(ip, ip.sym_dict(v))
        if k.issub(LIST):
            return json_to_cel(ip, ip.sym_list(v))
        return v
    if isinstance(v, AStr):
        return c_cstring(ip, C_STRING, [v], {})
    ip.throw("ValueError", f"unexpected type {ip.class_of(v).name} in JSON structure")


CELPY = {
    "Runner": RUNNER, "InterpretedRunner": RUNNER_I, "Environment": ENVIRONMENT, "CELEvalError": CELPY_EVAL_ERROR, "CELParseError": CELPY_PARSE_ERROR,
    "CELUnsupportedError": CELPY_UNSUPPORTED, "json_to_cel": ABuiltin("json_to_cel", lambda ip, a, k: json_to_cel(ip, a[0] if a else k["document"])),
    "celtypes": None, "Annotation": tgen("Annotation"), "CELFunction": tgen("CELFunction"), "Context": tgen("Context"),
    "Value": tgen("Value"), "Expression": TREE,
}
CELTYPES_NS = dict(CELTYPES)
CELTYPES_NS["Value"] = tgen("Value")

# kr8s ------------------------------------------------------------------------------
APIOBJECT = AClass("APIObject", [OBJECT], module="kr8s._objects")
API = AClass("Api", [OBJECT], module="kr8s")
API.flags.add("shared")
RESPONSE = AClass("Response", [OBJECT], module="httpx")


def new_class(ip, args, kw):
    kind, version, asyncio_, namespaced, scalable, spec, plural = args_of(ip, args, kw, ["kind", "version", "asyncio", "namespaced", "scalable", "scalable_spec", "plural"], (None, True, True, None, None, None))
    kind, version, plural = ip.force(kind), ip.force(version), ip.force(plural)
    if kind is None:
        ip.throw("TypeError", "argument of type 'NoneType' is not iterable")
    if isinstance(kind, str):
        if "." in kind:
            kind, version = kind.split(".", 1)
    else:
        if ip.contains(kind, "."):
            kind, version = ip.fresh("kindpart", STR, True), ip.fresh("kindgroup", STR, True)
    if version is None:
        version = "v1"
    low = ip.call(ip.getattr_(kind, "lower"), [], {})
    if not ip.truth(plural):
        plural = ip.mkstr([low, "s"])
    pl = ip.call(ip.getattr_(plural, "lower"), [], {})
    ns = {"kind": kind, "version": version, "_asyncio": asyncio_, "endpoint": pl, "plural": pl, "singular": low, "namespaced": namespaced,
          "scalable": False, "scalable_spec": "replicas"}
    if isinstance(kind, str) and "\0" in kind:
        ip.throw("ValueError", "type name must not contain null characters")
    if isinstance(kind, str) and any("\ud800" <= c <= "\udfff" for c in kind):
        ip.throw("UnicodeEncodeError", "'utf-8' codec can't encode character: surrogates not allowed")
    ip.kr8s_versions.append(version)
    return AClass(kind if isinstance(kind, str) else "Kind", [APIOBJECT], ns, module="kr8s.dynamic", kind="ext")


def get_class(ip, args, kw):
    kind, version, _a = args_of(ip, args, kw, ["kind", "version", "_asyncio"], (None, True))
    h = ip.hooks.get("kr8s_get_class")
    if h:
        return h(ip, ip.force(kind), ip.force(version))
    k, v = ip.force(kind), ip.force(version)
    if isinstance(k, str) and isinstance(v, str) and "." in k and "/" in v:
        ip.throw("ValueError", "Cannot specify group in both kind and version")
    for known in ip.kr8s_versions:          # every class there is gets compared, with those registered before
        if known is not None and not isinstance(known, (str, AStr, Sym)):
            ip.throw("TypeError", "argument of type is not iterable")
        if isinstance(known, str) and known.count("/") > 1:
            ip.throw("ValueError", "too many values to unpack (expected 2)")
    ip.throw("KeyError", "No object registered")


def api_object(ip, cls, args, kw):
    resource, namespace, api = args_of(ip, args, kw, ["resource", "namespace", "api"], (None, None))
    r = ip.force(resource)
    if isinstance(r, str) or isinstance(r, Sym) and r.core.cls is not None and r.core.cls.issub(STR):
        raw = ADict({"metadata": ADict({"name": r})})
    elif isinstance(r, ADict) or isinstance(r, Sym):
        raw = deepcopy(ip, r)
        if isinstance(raw, Sym):
            raw = ip.sym_dict(raw)
        raw.cls = DICT
    else:
        ip.throw("ValueError", "resource must be a dict, string, have a to_dict method or an obj attribute containing a dict")
    o = AInst(cls, {"_raw": raw, "_api": api, "__addr": r})
    if ip.force(namespace) is not None:
        # kr8s writes metadata.namespace into the caller's mapping as well (Box copies first)
        ip.setitem(ip.getitem(raw, "metadata"), "namespace", namespace)
    return o


def api_raw(ip, o):
    raw = o.attrs["_raw"]
    w, raw.watch = raw.watch, None
    for k, f in (("kind", "kind"), ("apiVersion", "version")):
        v = ip.getattr_(o.cls, f)
        cur = ip.dict_get(raw, k)
        if cur is MISSING or ip.force(cur) is not v:
            ip.dict_set(raw, k, v)
    raw.watch = w
    return raw


def set_raw(ip, o, v):
    v = ip.force(v)
    if isinstance(v, Sym):
        v = ip.sym_dict(v)
    o.attrs["_raw"] = deepcopy(ip, v)


def api_name(ip, o):
    md = ip.force(ip.getitem(api_raw(ip, o), "metadata"))
    n = ip.dict_get(md, "name") if isinstance(md, ADict) else MISSING
    if n is MISSING:
        ip.throw("ValueError", "Resource does not have a name")
    return n


def api_namespace(ip, o):
    if not ip.truth(ip.getattr_(o.cls, "namespaced")):
        return None
    raw = api_raw(ip, o)
    md = ip.dict_get(raw, "metadata", None)
    md = ip.force(md) if md is not None else None
    if isinstance(md, ADict):
        ns = ip.dict_get(md, "namespace")
        if ns is not MISSING:
            return ns
    api = ip.force(o.attrs["_api"])
    if api is None:
        ip.throw("AssertionError")
    return ip.getattr_(api, "namespace")


def api_fault(ip, op, info):
    h = ip.hooks.get("api_fault")
    if h:
        h(ip, op, info)


def api_send(ip, o, op, payload, post):
    """One API request by an APIObject; recorded as an event, its failure chosen by the scenario."""
    cls = o.cls
    info = dict(op=op, kind=ip.getattr_(cls, "kind"), version=ip.getattr_(cls, "version"), endpoint=ip.getattr_(cls, "endpoint"),
                payload=deepcopy(ip, payload) if payload is not None else None, obj=o)
    if op != "create":
        info["name"] = api_name(ip, o)
    info["namespace"] = api_namespace(ip, o)
    api = ip.force(o.attrs["_api"])
    if isinstance(api, AInst) and api.cls.kind == "repo" or isinstance(api, AInst) and api.cls.lookup("call_api") is not MISSING:
        verb = {"create": "POST", "patch": "PATCH", "delete": "DELETE", "get": "GET"}[op]
        url = info["endpoint"] if op == "create" else ip.mkstr([info["endpoint"], "/", info["name"]])
        kw = {"version": info["version"], "url": url, "namespace": info["namespace"]}
        if op != "get":
            kw["data"] = json_dumps(ip, [payload if payload is not None else ADict()], {})
        if op == "patch":
            kw["headers"] = ADict({"Content-Type": "application/merge-patch+json"})
        ip.emit("api", **info)
        cm = ip.call(ip.getattr_(api, "call_api"), [verb], kw)
        out = []
        if isinstance(cm, AGenCM):
            ip.with_cm(cm, lambda resp: out.append(resp), True)
        else:
            ip.with_cm(ip.force(cm), lambda resp: out.append(resp), True)
        if op in ("create", "patch", "get"):
            set_raw(ip, o, ip.call(ip.getattr_(out[0], "json"), [], {}))
        return None
    ip.emit("api", **info)
    label = f"{op}:{_lbl(ip, info.get('name') if op != 'create' else _payload_name(ip, payload))}"

    def thunk():
        api_fault(ip, op, info)
        return None
    ip.loop.external(label, thunk)
    if post:
        post()
    return None


def _lbl(ip, v):
    v = ip.force(v)
    return v if isinstance(v, str) else repr(v)


def _payload_name(ip, p):
    try:
        return ip.getitem(ip.getitem(p, "metadata"), "name")
    except AExc:
        return "?"


def ao(name):
    def deco(f):
        APIOBJECT.ns[name] = ABuiltin(name, f)
        return f
    return deco


@ao("create")
def ao_create(ip, args, kw):
    o = args[0]
    return ACoro(lambda: api_send(ip, o, "create", api_raw(ip, o), None), "APIObject.create")


@ao("patch")
def ao_patch(ip, args, kw):
    o = args[0]
    p = args[1] if len(args) > 1 else kw["patch"]

    def run():
        extra = {k: ip.force(v) for k, v in kw.items() if k != "patch" and ip.force(v) is not None}
        if extra:
            ip.emit("patch_mode", extra=extra)
        return api_send(ip, o, "patch", p, None)
    return ACoro(run, "APIObject.patch")


@ao("delete")
def ao_delete(ip, args, kw):
    o = args[0]
    return ACoro(lambda: api_send(ip, o, "delete", None, None), "APIObject.delete")


@ao("refresh")
def ao_refresh(ip, args, kw):
    o = args[0]
    return ACoro(lambda: api_send(ip, o, "get", None, None), "APIObject.refresh")


APIOBJECT.ns["async_create"] = APIOBJECT.ns["create"]
APIOBJECT.ns["async_patch"] = APIOBJECT.ns["patch"]
APIOBJECT.ns["async_delete"] = APIOBJECT.ns["delete"]
APIOBJECT.ns["__await__"] = ABuiltin("__await__", lambda ip, a, k: a[0])


def prop(f):
    return AProperty(ABuiltin("prop", lambda ip, a, k: f(ip, a[0])), ABuiltin("setter", lambda ip, a, k: None))


APIOBJECT.ns["raw"] = AProperty(ABuiltin("raw", lambda ip, a, k: api_raw(ip, a[0])), ABuiltin("raw.set", lambda ip, a, k: set_raw(ip, a[0], a[1])))
APIOBJECT.ns["name"] = AProperty(ABuiltin("name", lambda ip, a, k: api_name(ip, a[0])), ABuiltin("n.set", lambda ip, a, k: ip.setitem(ip.getitem(api_raw(ip, a[0]), "metadata"), "name", a[1])))
APIOBJECT.ns["namespace"] = AProperty(ABuiltin("namespace", lambda ip, a, k: api_namespace(ip, a[0])), ABuiltin("ns.set", lambda ip, a, k: ip.setitem(ip.getitem(api_raw(ip, a[0]), "metadata"), "namespace", a[1])))
APIOBJECT.ns["metadata"] = AProperty(ABuiltin("metadata", lambda ip, a, k: ip.getitem(api_raw(ip, a[0]), "metadata")))
APIOBJECT.ns["spec"] = AProperty(ABuiltin("spec", lambda ip, a, k: ip.getitem(api_raw(ip, a[0]), "spec")))
APIOBJECT.ns["status"] = AProperty(ABuiltin("status", lambda ip, a, k: ip.getitem(api_raw(ip, a[0]), "status")))
APIOBJECT.ns["api"] = AProperty(ABuiltin("api", lambda ip, a, k: a[0].attrs["_api"]), ABuiltin("api.set", lambda ip, a, k: a[0].attrs.__setitem__("_api", a[1])))
APIOBJECT.ns["to_dict"] = ABuiltin("to_dict", lambda ip, a, k: deepcopy(ip, api_raw(ip, a[0])))
APIOBJECT.ns["namespaced"] = False


def api_async_get(ip, args, kw):
    api = args[0]
    rest = list(args[1:])
    kind = ip.force(rest[0] if rest else kw.get("kind"))
    names = rest[1:]
    ns = kw.get("namespace")

    def run(ip):
        ip.emit("api", op="get", kind=kind, names=tuple(names), namespace=ns)
        h = ip.hooks.get("api_get")
        lab = f"get:{_lbl(ip, names[0]) if names else '*'}"
        res = ip.loop.external(lab, lambda: (api_fault(ip, "get", {"kind": kind, "names": names, "namespace": ns}), h(ip, api, kind, names, ns) if h else [])[1])
        for x in res:
            yield x
    return AAsyncIter(run)


def api_lookup(ip, args, kw):
    api, kind = args[0], args[1] if len(args) > 1 else kw.get("kind")

    def run():
        ip.emit("api", op="lookup", kind=kind)

        def thunk():
            api_fault(ip, "lookup", {"kind": kind})
            h = ip.hooks.get("api_lookup")
            return h(ip, kind) if h else (kind, "plural", True)
        return ip.loop.external(f"lookup:{_lbl(ip, kind)}", thunk)
    return ACoro(run, "Api.lookup_kind")


API.ns.update({"async_get": ABuiltin("async_get", api_async_get), "get": ABuiltin("get", api_async_get), "lookup_kind": ABuiltin("lookup_kind", api_lookup),
               "async_lookup_kind": ABuiltin("lookup_kind", api_lookup), "namespace": "api-default-ns"})

KR8S = {"NotFoundError": KR8S_NOT_FOUND, "ServerError": KR8S_SERVER_ERROR, "ConnectionClosedError": KR8S_CONN_CLOSED, "APITimeoutError": KR8S_TIMEOUT,
        "Api": API}
KR8S_OBJECTS = {"APIObject": APIOBJECT, "get_class": ABuiltin("get_class", get_class), "new_class": ABuiltin("new_class", new_class)}

# pathlib / yaml / fastjsonschema / importlib ------------------------------------------
PATH = AClass("Path", [OBJECT], module="pathlib")


def path_init(ip, args, kw):
    args[0].attrs["path"] = "/".join(str(ip.force(a) if not isinstance(ip.force(a), AInst) else ip.force(a).attrs.get("path", "?")) for a in args[1:])


def path_join(ip, args, kw):
    p = "/".join([args[0].attrs["path"]] + [str(ip.force(a)) for a in args[1:]])
    return AInst(PATH, {"path": p})


def path_read(ip, args, kw):
    p = args[0].attrs["path"]
    try:
        with open(p) as f:
            return f.read()
    except OSError as e:
        ip.host_exc(e)


def path_open(ip, args, kw):
    return AInst(FILE, {"path": args[0].attrs["path"]})


def path_exists(ip, args, kw):
    import os
    return os.path.exists(args[0].attrs["path"])


def path_prop(name):
    import os

    def f(ip, a, k):
        p = a[0].attrs["path"]
        if name == "parent":
            return AInst(PATH, {"path": os.path.dirname(p)})
        if name == "name":
            return os.path.basename(p)
        if name == "stem":
            return os.path.splitext(os.path.basename(p))[0]
        return os.path.splitext(p)[1]
    return AProperty(ABuiltin(name, f))


PATH.ns.update({"__init__": ABuiltin("__init__", path_init), "joinpath": ABuiltin("joinpath", path_join), "__truediv__": ABuiltin("truediv", path_join),
                "read_text": ABuiltin("read_text", path_read), "open": ABuiltin("open", path_open), "exists": ABuiltin("exists", path_exists),
                "is_file": ABuiltin("is_file", path_exists), "is_dir": ABuiltin("is_dir", path_exists), "__str__": ABuiltin("__str__", lambda ip, a, k: a[0].attrs["path"]),
                "resolve": ABuiltin("resolve", lambda ip, a, k: a[0]), "absolute": ABuiltin("absolute", lambda ip, a, k: a[0]),
                "as_posix": ABuiltin("as_posix", lambda ip, a, k: a[0].attrs["path"])})
for _n in ("parent", "name", "stem", "suffix"):
    PATH.ns[_n] = path_prop(_n)


def path_iter(ip, args, kw):
    import os
    p = args[0].attrs["path"]
    try:
        names = sorted(os.listdir(p))
    except OSError as e:
        ip.host_exc(e)
    return AIter(iter([AInst(PATH, {"path": os.path.join(p, n)}) for n in names]))


def path_glob(ip, args, kw):
    import glob
    import os
    p = args[0].attrs["path"]
    return AIter(iter([AInst(PATH, {"path": x}) for x in sorted(glob.glob(os.path.join(p, ip.force(args[1]))))]))


PATH.ns["iterdir"] = ABuiltin("iterdir", path_iter)
PATH.ns["glob"] = ABuiltin("glob", path_glob)
FILE.ns.update({
    "__enter__": ABuiltin("__enter__", lambda ip, a, k: a[0]), "__exit__": ABuiltin("__exit__", lambda ip, a, k: False),
    "read": ABuiltin("read", path_read), "close": ABuiltin("close", lambda ip, a, k: None),
})


_YAML = {}


def yaml_load(many):
    def f(ip, args, kw):
        import yaml
        src = ip.force(args[0])
        if isinstance(src, AInst) and "path" in src.attrs:
            src = path_read(ip, [src], {})
        if not isinstance(src, str):
            return ip.unmodelled("yaml input")
        docs = _YAML.get(src)
        if docs is None:
            try:
                docs = _YAML[src] = list(yaml.safe_load_all(src))
            except yaml.YAMLError as e:
                ip.throw("ValueError", str(e))
        if many:
            return AIter(iter([to_abs(d) for d in docs]))
        return to_abs(docs[0]) if docs else None
    return ABuiltin("yaml.load", f)


def pkg_files(ip, args, kw):
    import os
    pkg = ip.force(args[0])
    name = pkg.name if isinstance(pkg, AModule) else pkg
    f = ip.p.files.get(name)
    return AInst(PATH, {"path": os.path.dirname(f) if f else name})


def pkg_path(ip, args, kw):
    p = pkg_files(ip, args, kw)
    if len(args) > 1:
        return path_join(ip, [p] + list(args[1:]), {})
    return p


PATH.ns["__enter__"] = ABuiltin("__enter__", lambda ip, a, k: a[0])
PATH.ns["__exit__"] = ABuiltin("__exit__", lambda ip, a, k: False)

_FJS = {}


class NotHost(Exception):
    pass


def to_host(ip, v):
    """host copy of a fully known JSON-like value"""
    v = ip.force(v)
    if isinstance(v, ADict):
        return {to_host(ip, k): to_host(ip, x) for k, x in ip.dict_items(v)}
    if isinstance(v, AList):
        return [to_host(ip, x) for x in v.items]
    if isinstance(v, tuple):
        return tuple(to_host(ip, x) for x in v)
    if isinstance(v, CBool):
        return bool(v)
    if v is None or isinstance(v, (bool, int, float, str, bytes)):
        return v
    raise NotHost(repr(v))


def write_back(ip, v, h):
    """copy the defaults that validation filled in"""
    v = ip.force(v)
    if isinstance(v, ADict) and isinstance(h, dict):
        for k, x in h.items():
            cur = ip.dict_get(v, k)
            if cur is MISSING:
                ip.dict_set(v, k, to_abs(x))
            else:
                write_back(ip, cur, x)
    elif isinstance(v, AList) and isinstance(h, list):
        for a, b in zip(v.items, h):
            write_back(ip, a, b)


def fjs_compile(ip, args, kw):
    """JSON schemas: validation of known documents is delegated to the fastjsonschema library itself."""
    import fastjsonschema
    import json as _j
    schema = args[0] if args else kw["definition"]
    try:
        hs = to_host(ip, schema)
    except NotHost:
        return ip.unmodelled("JSON schema with unknown parts")
    key = _j.dumps(hs, sort_keys=True, default=str)
    val = _FJS.get(key)
    if val is None:
        try:
            val = fastjsonschema.compile(hs)
        except fastjsonschema.JsonSchemaDefinitionException as e:
            val = ("def", str(e))
        except Exception as e:
            val = ("exc", e)
        _FJS[key] = val
    if isinstance(val, tuple):
        if val[0] == "def":
            ip.throw(FJS_DEF, val[1])
        ip.host_exc(val[1])

    def run(ip, a, k):
        h = ip.hooks.get("schema_validate")
        ip.emit("schema_validate", spec=a[0], schema=hs)
        if h:
            r = h(ip, hs, a[0])
            if r is not NotImplemented:
                return r
        try:
            doc = to_host(ip, a[0])
        except NotHost as e:
            return ip.unmodelled(f"schema validation of unknown value {e}")
        try:
            val(doc)
        except fastjsonschema.JsonSchemaValueException as e:
            write_back(ip, a[0], doc)
            ip.throw(FJS_VALUE, e.message, message=e.message, rule=e.rule, rule_definition=to_abs(e.rule_definition), name=e.name, value=a[0])
        except Exception as e:
            ip.host_exc(e)
        write_back(ip, a[0], doc)
        return a[0]
    b = ABuiltin("fastjsonschema-validator", run)
    b.schema = hs
    return b


def pure(f):
    """A pure library function of plain constants: evaluated by the library itself."""
    def run(ip, a, k):
        try:
            args = [to_host(ip, x) for x in a]
            kw = {n: to_host(ip, x) for n, x in k.items()}
        except NotHost as e:
            return ip.unmodelled(f"{f.__name__} of unknown value {e}")
        try:
            return to_abs(f(*args, **kw))
        except Exception as e:
            ip.host_exc(e)
    return ABuiltin(f.__name__, run)


def celstr(ip, a, k):
    """celpy.evaluation.celstr: the text of a string literal."""
    from . import cel
    t = ip.force(a[0] if a else k.get("token"))
    if not isinstance(t, str):
        return ip.unmodelled("celstr of unknown token")
    try:
        return CStr(cel.unquote(str(t)))
    except Exception as e:
        ip.host_exc(e)


def pure_module(mod, *names):
    m = importlib.import_module(mod)
    return {n: pure(v) if callable(v) else v for n in names for v in [getattr(m, n)]}


def chain_map(ip, a, k):
    d = ADict()
    for m in reversed(a):
        dict_update(ip, d, m)
    return d


def to_thread(ip, a, k):
    def run():
        ip.loop.pause()
        return ip.call(a[0], list(a[1:]), k)
    return ACoro(run, "to_thread")


HASH = AClass("HASH", [OBJECT], module="_hashlib")


def hasher(name):
    import hashlib

    def make(ip, a, k):
        o = AInst(HASH, {"name": name, "data": b""})
        for x in a:
            upd(ip, [o, x], {})
        return o

    def upd(ip, a, k):
        v = ip.force(a[1])
        o = a[0]
        if isinstance(v, bytes) and o.attrs["data"] is not None:
            o.attrs["data"] += v
        else:
            o.attrs["data"] = None
            ip.unmodelled("hash of unknown bytes")
    HASH.ns["update"] = ABuiltin("update", upd)
    HASH.ns["hexdigest"] = ABuiltin("hexdigest", lambda ip, a, k: ip.fresh("digest", STR) if a[0].attrs["data"] is None else hashlib.new(a[0].attrs["name"], a[0].attrs["data"]).hexdigest())
    HASH.ns["digest"] = ABuiltin("digest", lambda ip, a, k: ip.fresh("digest", BYTES) if a[0].attrs["data"] is None else hashlib.new(a[0].attrs["name"], a[0].attrs["data"]).digest())
    return ABuiltin(name, make)


EXT = {
    "typing": TYPING, "typing_extensions": TYPING, "collections.abc": TYPING, "asyncio": ASYNCIO, "asyncio.exceptions": ASYNCIO, "asyncio.queues": ASYNCIO,
    "collections": {"defaultdict": DEFAULTDICT, "OrderedDict": ORDEREDDICT, "Counter": COUNTER, "deque": DEQUE, "namedtuple": ABuiltin("namedtuple", nt_factory),
                    "ChainMap": ABuiltin("ChainMap", chain_map), "UserDict": DICT},
    "functools": {"reduce": ABuiltin("reduce", f_reduce), "partial": ABuiltin("partial", f_partial), "cache": ABuiltin("cache", f_cache),
                  "lru_cache": ABuiltin("lru_cache", f_cache), "wraps": ABuiltin("wraps", f_wraps), "update_wrapper": ABuiltin("update_wrapper", lambda ip, a, k: f_wraps(ip, [a[1]], {}).fn(ip, [a[0]], {})),
                  "cached_property": ABuiltin("cached_property", lambda ip, a, k: AProperty(a[0], None, True)), "singledispatch": ABuiltin("singledispatch", f_singledispatch),
                  "cmp_to_key": ABuiltin("cmp_to_key", lambda ip, a, k: ABuiltin("K", lambda ip, b, k2: AInst(CMPKEY, {"fn": a[0], "obj": b[0]}))), "total_ordering": ABuiltin("total_ordering", f_total_ordering)},
    "itertools": {"chain": CHAIN, "islice": ABuiltin("islice", it_islice), "zip_longest": ABuiltin("zip_longest", it_zip_longest), "count": ABuiltin("count", it_count),
                  "product": ABuiltin("product", it_product), "groupby": ABuiltin("groupby", it_groupby), "takewhile": ABuiltin("takewhile", it_takewhile(True)),
                  "dropwhile": ABuiltin("dropwhile", it_takewhile(False)),
                  **{f.__name__.removeprefix("it_"): it_host(f) for f in (it_accumulate, it_batched, it_repeat, it_filterfalse, it_compress, it_pairwise, it_starmap,
                                                                          it_combi("combinations"), it_combi("permutations"), it_combi("combinations_with_replacement"))},
                  "tee": ABuiltin("tee", lambda ip, a, k: tuple(it_tee(ip, a, k)))},
    "operator": {"itemgetter": ABuiltin("itemgetter", op_getter("item")), "attrgetter": ABuiltin("attrgetter", op_getter("attr")),
                 "eq": ABuiltin("eq", lambda ip, a, k: ip.eq(a[0], a[1])), "or_": ABuiltin("or_", lambda ip, a, k: ip.binop(ast.BitOr(), a[0], a[1])),
                 "add": ABuiltin("add", lambda ip, a, k: ip.binop(ast.Add(), a[0], a[1])), "not_": ABuiltin("not_", lambda ip, a, k: not ip.truth(a[0]))},
    "enum": {"Enum": ENUM, "StrEnum": STRENUM, "IntEnum": INTENUM, "auto": AUTO, "unique": ABuiltin("u", identity_deco)},
    "dataclasses": {"dataclass": ABuiltin("dataclass", dataclass), "field": ABuiltin("field", lambda ip, a, k: AInst(DCFIELD, dict(k))),
                    "replace": ABuiltin("replace", dc_replace), "asdict": ABuiltin("asdict", lambda ip, a, k: dc_dict(ip, a[0])), "astuple": ABuiltin("astuple", lambda ip, a, k: dc_dict(ip, a[0], True)),
                    "fields": ABuiltin("fields", dc_fields), "FrozenInstanceError": V.FROZEN,
                    "is_dataclass": ABuiltin("is_dataclass", lambda ip, a, k: (lambda o: "dc" in V._flags(o if isinstance(o, AClass) else ip.class_of(o) or OBJECT))(ip.force(a[0])))},
    "copy": {"deepcopy": ABuiltin("deepcopy", lambda ip, a, k: deepcopy(ip, a[0])), "copy": ABuiltin("copy", lambda ip, a, k: shallow(ip, a[0])),
             "replace": ABuiltin("replace", copy_replace)},
    "json": {"dumps": ABuiltin("json.dumps", json_dumps), "loads": ABuiltin("json.loads", json_loads), "JSONDecodeError": JSON_DECODE_ERROR},
    "re": {"compile": ABuiltin("re.compile", re_compile), "Pattern": PATTERN, "Match": MATCH, "error": RE_ERROR, "IGNORECASE": _re.I, "I": _re.I,
           "escape": ABuiltin("re.escape", lambda ip, a, k: _re.escape(ip.force(a[0]))),
           "sub": ABuiltin("re.sub", lambda ip, a, k: re_sub(ip, re_compile(ip, [a[0]], {}), a[1], a[2])),
           **{n: re_mod(n) for n in ("match", "search", "fullmatch", "findall", "finditer", "split")}},
    "time": {"monotonic": ABuiltin("time.monotonic", t_now), "time": ABuiltin("time.time", t_now), "perf_counter": ABuiltin("pc", t_now),
             "monotonic_ns": ABuiltin("mns", t_now), "time_ns": ABuiltin("tns", t_now)},
    "datetime": {"datetime": DATETIME, "timedelta": TIMEDELTA, "UTC": Sym("UTC"), "timezone": AInst(AClass("timezone", [OBJECT]), {"utc": Sym("UTC")}), "date": DATETIME},
    "logging": {"getLogger": ABuiltin("getLogger", lambda ip, a, k: AInst(LOGGER)), "Logger": LOGGER, "DEBUG": 10, "INFO": 20, "WARNING": 30, "ERROR": 40, "CRITICAL": 50,
                **{n: ABuiltin(n, log_call) for n in ("debug", "info", "warning", "error", "exception", "critical", "basicConfig")}},
    "base64": {n: b64(n) for n in ("b64encode", "b64decode", "standard_b64encode", "urlsafe_b64encode", "urlsafe_b64decode", "standard_b64decode")},
    "contextlib": {"asynccontextmanager": ABuiltin("acm", ctxmanager), "contextmanager": ABuiltin("cm", ctxmanager), "suppress": SUPPRESS, "nullcontext": NULLCTX},
    "celpy": CELPY, "celpy.celtypes": CELTYPES_NS, "celpy.celparser": {"tree_dump": ABuiltin("tree_dump", lambda ip, a, k: ip.hooks["tree_dump"](ip, ip.force(a[0])) if "tree_dump" in ip.hooks else "<tree>"), "CELParseError": CELPY_PARSE_ERROR},
    "celpy.evaluation": {"celstr": ABuiltin("celstr", celstr), "CELEvalError": CELPY_EVAL_ERROR, "Activation": tgen("Activation")}, "celpy.adapter": {"json_to_cel": CELPY["json_to_cel"]},
    "lark": {"Tree": TREE, "Token": TOKEN}, "lark.tree": {"Tree": TREE}, "lark.lexer": {"Token": TOKEN},
    "kr8s": KR8S, "kr8s.asyncio": {"Api": API}, "kr8s._objects": KR8S_OBJECTS, "kr8s.objects": KR8S_OBJECTS, "kr8s.asyncio.objects": KR8S_OBJECTS,
    "kr8s._api": {"Api": API}, "kr8s._exceptions": KR8S,
    "pathlib": {"Path": PATH, "PurePath": PATH}, "yaml": {n: yaml_load("all" in n) for n in ("load", "safe_load", "load_all", "safe_load_all")},
    "fastjsonschema": {"compile": ABuiltin("fastjsonschema.compile", fjs_compile), "JsonSchemaValueException": FJS_VALUE,
                       "JsonSchemaDefinitionException": FJS_DEF, "JsonSchemaException": FJS_VALUE},
    "importlib": {}, "importlib.resources": {"files": ABuiltin("files", pkg_files), "path": ABuiltin("path", pkg_path), "as_file": ABuiltin("as_file", lambda ip, a, k: a[0])},
    "abc": {"ABC": AClass("ABC", [OBJECT], module="abc"), "abstractmethod": ABuiltin("abstractmethod", identity_deco)},
    "os": {}, "os.path": {}, "sys": {"maxsize": 2 ** 63 - 1}, "string": pure_module("string", "ascii_letters", "ascii_lowercase", "ascii_uppercase", "digits", "hexdigits", "octdigits", "punctuation", "whitespace", "printable"),
    "math": pure_module("math", "inf", "nan", "pi", "e", "isfinite", "isnan", "isinf", "floor", "ceil", "trunc", "copysign", "fabs", "isclose", "log10", "log2", "sqrt", "pow", "fmod"),
    "unicodedata": pure_module("unicodedata", "category", "normalize", "name", "decimal", "digit", "numeric"), "html": pure_module("html", "escape", "unescape"), "types": {"SimpleNamespace": AClass("SimpleNamespace", [OBJECT], module="types"), "MappingProxyType": DICT, "NoneType": NONE},
    "warnings": {"warn": ABuiltin("warn", log_call)}, "traceback": {"format_exc": ABuiltin("format_exc", lambda ip, a, k: "tb"), "print_exc": ABuiltin("print_exc", log_call)},
    "inspect": {"isawaitable": ABuiltin("isawaitable", lambda ip, a, k: isinstance(ip.force(a[0]), (ACoro, AFut)))},
    "random": {}, "uuid": {}, "hashlib": {n: hasher(n) for n in ("md5", "sha1", "sha256", "sha512", "sha224", "sha384", "blake2b", "blake2s", "sha3_256")}, "numbers": {"Number": AClass("Number", [OBJECT], module="numbers"), "Real": AClass("Real", [OBJECT], module="numbers"), "Integral": AClass("Integral", [OBJECT], module="numbers")},
}
EXT["yaml"].update({"SafeLoader": Sym("ext:SafeLoader"), "Loader": Sym("ext:Loader"), "CSafeLoader": Sym("ext:CSafeLoader")})

_MODS = {}


def ext_module(ip, name):
    m = _MODS.get(name)
    if m is None:
        m = _MODS[name] = AModule(name, ext=True)
    return m


def ext_attr(ip, mod, name):
    t = EXT.get(mod)
    if t is not None:
        v = t.get(name, MISSING)
        if v is not MISSING and not (mod == "celpy" and name == "celtypes"):
            return v
    sub = f"{mod}.{name}"
    if sub in EXT or any(k.startswith(sub + ".") for k in EXT):
        return ext_module(ip, sub)
    if name == "__name__":
        return mod
    key = ("ext", sub)
    if key not in ip.singletons:
        ip.singletons[key] = Sym(f"ext:{sub}")
    return ip.singletons[key]
