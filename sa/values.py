"""Abstract values.

Constants are host constants (folded); containers are heap objects with identity whose elements are
abstract values; `Sym` is an opaque value carrying facts (class, truthiness, equalities); `Lazy` is a
finite choice that is only split when an operation needs to know which option it is.
"""
import builtins as _b


class _Missing:
    def __repr__(self):
        return "<missing>"

    def __deepcopy__(self, memo):
        return self


MISSING = _Missing()


class AExc(Exception):
    """A raised abstract exception."""

    def __init__(self, value, node=None):
        self.value = value
        self.node = node
        self.trace = None


class Abort(Exception):
    """The path left what the interpreter models (or exceeded a bound)."""


class ReturnSig(Exception):
    def __init__(self, value):
        self.value = value


class BreakSig(Exception):
    pass


class ContinueSig(Exception):
    pass


class AClass:
    def __init__(self, name, bases=(), ns=None, module=None, kind="ext", fields=None, host=None, qualname=None):
        self.name = name
        self.bases = list(bases)
        self.ns = ns if ns is not None else {}
        self.module = module
        self.kind = kind
        self.fields = fields
        self.host = host
        self.qualname = qualname or name
        self.flags = set()
        mro = [self]
        for b in self.bases:
            for c in b.mro:
                if c not in mro:
                    mro.append(c)
        # keep object last
        self.mro = [c for c in mro if c.name != "object" or c.bases] + [c for c in mro if c.name == "object" and not c.bases]
        if fields is None:
            for b in self.bases:
                if b.fields is not None:
                    self.fields = b.fields
                    break

    def lookup(self, name):
        for c in self.mro:
            if name in c.ns:
                return c.ns[name]
        return MISSING

    def issub(self, other):
        return other in self.mro

    @property
    def full(self):
        return f"{self.module}.{self.qualname}" if self.module else self.qualname

    def __repr__(self):
        return f"<class {self.full}>"

    def __deepcopy__(self, memo):
        return self


OBJECT = AClass("object", host=object)


def _mk(name, *bases, host=None):
    return AClass(name, bases or (OBJECT,), host=host)


TYPE = _mk("type", host=type)
INT = _mk("int", host=int)
BOOL = _mk("bool", INT, host=bool)
FLOAT = _mk("float", host=float)
STR = _mk("str", host=str)
BYTES = _mk("bytes", host=bytes)
LIST = _mk("list", host=list)
TUPLE = _mk("tuple", host=tuple)
DICT = _mk("dict", host=dict)
SET = _mk("set", host=set)
FROZENSET = _mk("frozenset", host=frozenset)
NONE = _mk("NoneType")
FUNCTION = _mk("function")
MODULE = _mk("module")
ITERATOR = _mk("iterator")
COROUTINE = _mk("coroutine")
GENERATOR = _mk("generator", ITERATOR)
ELLIPSIS = _mk("ellipsis")
COMPLEX = _mk("complex", host=complex)
DATETIME = _mk("datetime")
TIMEDELTA = _mk("timedelta")
DEFAULTDICT = _mk("defaultdict", DICT)
ORDEREDDICT = _mk("OrderedDict", DICT)
COUNTER = _mk("Counter", DICT)
DEQUE = _mk("deque")
DICTVIEW = _mk("dict_view")
NOTIMPL = _mk("NotImplementedType")

EXC = {}


def _mkexc():
    todo = [c for c in vars(_b).values() if isinstance(c, type) and issubclass(c, BaseException)]

    def get(c):
        if c.__name__ in EXC:
            return EXC[c.__name__]
        bases = [get(b) if b is not object else OBJECT for b in c.__bases__]
        k = AClass(c.__name__, bases, kind="exc", host=c)
        EXC[c.__name__] = k
        return k

    for c in todo:
        get(c)


_mkexc()
EXC["EnvironmentError"] = EXC["IOError"] = EXC["OSError"]


def mkexc(name, *bases, module=None):
    return AClass(name, [EXC[b] if isinstance(b, str) else b for b in bases] or [EXC["Exception"]], kind="exc", module=module)


CELPY_EVAL_ERROR = mkexc("CELEvalError", module="celpy.evaluation")
CELPY_PARSE_ERROR = mkexc("CELParseError", module="celpy.celparser")
CELPY_UNSUPPORTED = mkexc("CELUnsupportedError", module="celpy.evaluation")
CANCELLED = mkexc("CancelledError", "BaseException", module="asyncio")
QUEUE_SHUTDOWN = mkexc("QueueShutDown", module="asyncio")
QUEUE_EMPTY = mkexc("QueueEmpty", module="asyncio")
QUEUE_FULL = mkexc("QueueFull", module="asyncio")
INVALID_STATE = mkexc("InvalidStateError", module="asyncio")
FROZEN = mkexc("FrozenInstanceError", "AttributeError", module="dataclasses")
KR8S_NOT_FOUND = mkexc("NotFoundError", module="kr8s")
KR8S_SERVER_ERROR = mkexc("ServerError", module="kr8s")
KR8S_CONN_CLOSED = mkexc("ConnectionClosedError", module="kr8s")
KR8S_TIMEOUT = mkexc("APITimeoutError", module="kr8s")
JSON_DECODE_ERROR = mkexc("JSONDecodeError", "ValueError", module="json")
RE_ERROR = mkexc("error", module="re")
FJS_VALUE = mkexc("JsonSchemaValueException", "ValueError", module="fastjsonschema")
FJS_DEF = mkexc("JsonSchemaDefinitionException", "Exception", module="fastjsonschema")


class CStr(str):
    pass


class CInt(int):
    pass


class CUint(int):
    pass


class CBool(int):
    pass


class CDouble(float):
    pass


class CBytes(bytes):
    pass


def _ct(name, *bases):
    return AClass(name, bases or (OBJECT,), module="celpy.celtypes")


C_STRING = _ct("StringType", STR)
C_INT = _ct("IntType", INT)
C_UINT = _ct("UintType", INT)
C_BOOL = _ct("BoolType", INT)
C_DOUBLE = _ct("DoubleType", FLOAT)
C_BYTES = _ct("BytesType", BYTES)
C_LIST = _ct("ListType", LIST)
C_MAP = _ct("MapType", DICT)
C_MESSAGE = _ct("MessageType", C_MAP)
C_NULL = _ct("NullType")
C_TIMESTAMP = _ct("TimestampType", DATETIME)
C_DURATION = _ct("DurationType", TIMEDELTA)
C_TYPE = _ct("TypeType")
C_FUNCTION = _ct("FunctionType")
CELTYPES = {c.name: c for c in (C_STRING, C_INT, C_UINT, C_BOOL, C_DOUBLE, C_BYTES, C_LIST, C_MAP, C_MESSAGE,
                                C_NULL, C_TIMESTAMP, C_DURATION, C_TYPE, C_FUNCTION)}


class Heap:
    """Mutable abstract objects."""
    watch = None
    alloc = None


class AList(Heap):
    def __init__(self, items=(), cls=LIST):
        self.items = list(items)
        self.cls = cls

    def __repr__(self):
        n = "" if self.cls is LIST else self.cls.name
        return f"{n}{self.items!r}"


class ADict(Heap):
    """entries: hkey -> [key, value].  `open`: None (closed) or a callable(interp, dict, key, hkey) -> value|MISSING
    that decides, once per key, what an unknown key holds."""

    def __init__(self, entries=None, cls=DICT, open=None):
        self.e = {}
        self.cls = cls
        self.open = open
        self.absent = set()
        self.default_factory = None
        self.extra = None
        if entries:
            for k, v in (entries.items() if isinstance(entries, dict) else entries):
                self.e[hkey(k)] = [k, v]

    def __repr__(self):
        n = "" if self.cls is DICT else self.cls.name
        return n + "{" + ", ".join(f"{k!r}: {v!r}" for k, v in self.e.values()) + ("..." if self.open else "") + "}"


class ASet(Heap):
    def __init__(self, items=(), cls=SET):
        self.e = {}
        self.cls = cls
        for k in items:
            self.e[hkey(k)] = k

    def __repr__(self):
        return "{" + ", ".join(map(repr, self.e.values())) + "}"


class AInst(Heap):
    def __init__(self, cls, attrs=None):
        self.cls = cls
        self.attrs = attrs if attrs is not None else {}

    def __repr__(self):
        a = {k: v for k, v in self.attrs.items() if not k.startswith("__")}
        return f"{self.cls.name}({', '.join(f'{k}={v!r}' for k, v in a.items())})"


class AFunc:
    _n = 0

    def __init__(self, node, env, module, qualname, defaults=(), kwdefaults=None, cls=None):
        AFunc._n += 1
        self.uid = AFunc._n
        self.node = node
        self.env = env
        self.module = module
        self.qualname = qualname
        self.defaults = list(defaults)
        self.kwdefaults = kwdefaults or {}
        self.cls = cls
        self.info = None
        self.attrs = {}

    @property
    def name(self):
        return getattr(self.node, "name", "<lambda>")

    @property
    def full(self):
        return f"{self.module}.{self.qualname}"

    def __repr__(self):
        return f"<function {self.full}>"

    def __deepcopy__(self, memo):
        return self


class ABound:
    def __init__(self, func, self_):
        self.func = func
        self.self_ = self_

    def __repr__(self):
        return f"<bound {self.func!r} of {type(self.self_).__name__}>"


class ABuiltin:
    def __init__(self, name, fn):
        self.name = name
        self.fn = fn
        self.attrs = {}

    def __repr__(self):
        return f"<builtin {self.name}>"

    def __deepcopy__(self, memo):
        return self


class AProperty:
    def __init__(self, fget, fset=None, cached=False):
        self.fget = fget
        self.fset = fset
        self.cached = cached


class AStatic:
    def __init__(self, f):
        self.f = f


class AClassMethod:
    def __init__(self, f):
        self.f = f


class AModule:
    def __init__(self, name, ext=False):
        self.name = name
        self.globals = {}
        self.ext = ext

    def __repr__(self):
        return f"<module {self.name}>"

    def __deepcopy__(self, memo):
        return self


class AIter(Heap):
    cls = ITERATOR

    def __init__(self, gen):
        self.gen = gen


class AGen(Heap):
    """A call of a generator function."""
    cls = GENERATOR

    def __init__(self, func, env):
        self.func = func
        self.env = env
        self.worker = None
        self.ret = None
        self.count = 0
        self.done = self.running = False


class AGenCM(Heap):
    """Context manager made from a generator function; its body is spliced around the with-body."""
    cls = OBJECT

    def __init__(self, func, args, kwargs):
        self.func, self.args, self.kwargs = func, args, kwargs


class ACoro(Heap):
    cls = COROUTINE

    def __init__(self, run, name):
        self.run = run
        self.name = name
        self.started = False


class AAsyncIter(Heap):
    cls = OBJECT

    def __init__(self, fn):
        self.fn = fn


class Core:
    __slots__ = ("name", "cls", "truth", "isnot", "eq", "memo", "const", "rep", "op", "maxlen", "minlen", "length", "distinct")

    def __init__(self, name, cls=None, truth=None, op=None):
        self.name = name
        self.cls = cls
        self.truth = truth
        self.isnot = []
        self.eq = {}
        self.memo = {}
        self.const = MISSING
        self.op = op
        self.length = None
        self.maxlen = 2
        self.minlen = 0
        self.distinct = None


class Sym(Heap):
    """Opaque value. Facts live in `core`, shared by deep copies of the value."""

    def __init__(self, name, cls=None, truth=None, op=None, core=None):
        self.core = core or Core(name, cls, truth, op)
        self.attrs = {}
        self.as_dict = None
        self.as_list = None

    @property
    def name(self):
        return self.core.name

    def __repr__(self):
        c = self.core
        if c.const is not MISSING:
            return f"<{c.name}=={c.const!r}>"
        return f"<{c.name}{':' + c.cls.name if c.cls else ''}>"


class Lazy:
    """options: list of (label, value-or-thunk(interp)). Unresolved until an operation needs it."""

    def __init__(self, name, options):
        self.name = name
        self.options = options
        self.chosen = None
        self.value = MISSING
        self.base = None
        self.fn = None

    @classmethod
    def derive(cls, base, fn):
        """The value fn(ip, base), decided together with `base`."""
        d = cls(base.name, base.options)
        d.base = base
        d.fn = fn
        return d

    def label(self):
        return None if self.chosen is None else self.options[self.chosen][0]

    def __repr__(self):
        if self.chosen is not None:
            return repr(self.value)
        return f"<lazy {self.name}>"


class AStr:
    """Text built from literal chunks and embedded values."""

    def __init__(self, parts):
        self.parts = parts

    def __repr__(self):
        return "f'" + "".join(p if isinstance(p, str) else "{" + repr(p) + "}" for p in self.parts) + "'"


class AFut(Heap):
    """Future of the modelled event loop."""
    cls = OBJECT

    def __init__(self, name="fut"):
        self.name = name
        self.done = False
        self.cancelled = False
        self.result = None
        self.exc = None
        self.callbacks = []  # host callables or abstract callables
        self.attrs = {}

    def __repr__(self):
        return f"<{type(self).__name__} {self.name!r} {'done' if self.done else 'pending'}>"


class ATask(AFut):
    def __init__(self, coro, name, cls):
        super().__init__(name)
        self.coro = coro
        self.cls = cls
        self.started = False
        self.must_cancel = False
        self.cancelling = 0
        self.waiting = None
        self.worker = None


def hkey(v):
    """Hash key of an abstract value (raises TypeError when unhashable)."""
    while isinstance(v, Lazy):
        if v.chosen is None:
            raise RuntimeError(f"hkey of unresolved {v!r}")
        v = v.value
    if isinstance(v, Sym):
        c = v.core
        if c.const is not MISSING:
            return hkey(c.const)
        if c.cls is not None and (c.cls.issub(DICT) or c.cls.issub(LIST) or c.cls.issub(SET)):
            raise TypeError(f"unhashable type: '{c.cls.name}'")
        return ("s", id(c))
    if isinstance(v, AStr):
        if len(v.parts) == 1 and isinstance(v.parts[0], Sym):
            c = v.parts[0].core
            if c.cls is not None and c.cls.issub(STR):
                return hkey(v.parts[0])
        return ("as",) + tuple(p if isinstance(p, str) else ("p", id(p.core) if isinstance(p, Sym) else id(p)) for p in v.parts)
    if isinstance(v, tuple):
        return ("t",) + tuple(hkey(x) for x in v)
    if isinstance(v, (AList, ADict)) or (isinstance(v, ASet) and v.cls is SET):
        raise TypeError(f"unhashable type: '{v.cls.name}'")
    if isinstance(v, ASet):
        return ("fs", frozenset(v.e))
    if isinstance(v, AInst):
        if v.cls.fields is not None and "__eq__" not in v.cls.ns and "nt" in _flags(v.cls):
            return ("t",) + tuple(hkey(v.attrs.get(f)) for f, _ in v.cls.fields)
        if "enumval" in _flags(v.cls):
            return hkey(v.attrs["value"])
        if "dc" in _flags(v.cls) and not _flags(v.cls) & {"frozen", "noeq", "hashed"} and v.cls.lookup("__hash__") is MISSING and v.cls.kind == "repo":
            raise TypeError(f"unhashable type: '{v.cls.name}'")
        if "frozen" in _flags(v.cls):
            return ("dc", v.cls.full) + tuple(hkey(v.attrs.get(f)) for f, _ in v.cls.fields)
        if "c_map" in _flags(v.cls):
            raise TypeError(f"unhashable type: '{v.cls.name}'")
        return ("o", id(v))
    if isinstance(v, (AClass, AFunc, ABuiltin, ABound, AModule, Heap)):
        return ("o", id(v))
    try:
        return ("c", v)
    finally:
        hash(v)


def _flags(cls):
    out = set()
    for c in cls.mro:
        out |= c.flags
    return out
