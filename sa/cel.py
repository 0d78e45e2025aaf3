"""Abstract semantics of CEL as implemented by celpy 0.3 (the expression library /repo depends on).

Expressions are parsed with celpy's own grammar; evaluation works on abstract values, follows celpy's rules
(errors are values, `&&`/`||` absorb them, map literals keep them, list literals and arguments propagate
them) and calls Koreo's custom functions through the interpreter, from /repo's source.
"""
import os
import re
import sys

from .values import *
from . import values as V
from .interp import _seq
from . import lib

try:
    import lark
except ImportError:  # the repository's own environment has it
    sys.path.append("/opt/venv/lib/python3.12/site-packages")
    import lark
import importlib.util


def _celpy_dir():
    for d in sys.path + ["/opt/venv/lib/python3.12/site-packages"]:
        p = os.path.join(d or ".", "celpy", "cel.lark")
        if os.path.exists(p):
            return os.path.dirname(p)
    raise RuntimeError("celpy grammar not found")


_parser = None


def parser():
    global _parser
    if _parser is None:
        with open(os.path.join(_celpy_dir(), "cel.lark")) as f:
            g = f.read()
        _parser = lark.Lark(g, parser="lalr", start="expr", debug=False, g_regex_flags=re.M, lexer_callbacks={"IDENT": _ident},
                            propagate_positions=True)
    return _parser


def _ident(t):
    return lark.Token("BOOL_LIT", t.value) if t.value in ("true", "false") else t


_cache = {}


def parse(text):
    """lark tree, or an Exception of the parser."""
    r = _cache.get(text)
    if r is None:
        try:
            r = parser().parse(text)
        except Exception as e:
            r = e
        _cache[text] = r
    return r


def to_tree(t):
    if isinstance(t, lark.Tree):
        a = lib.mk_tree(str(t.data), [to_tree(c) for c in t.children])
        a.lark = t
        return a
    return lib.tok(t.type, str(t))


def compile_(ip, text):
    """Environment.compile"""
    text = ip.force(text)
    k = ip.class_of(text)
    if isinstance(text, AStr) or isinstance(text, Sym):
        ip.unmodelled("CEL source with unknown text")
        return lib.AInst(lib.TREE, {"data": "expr", "children": AList([]), "text": text})
    if not isinstance(text, str):
        ip.throw("TypeError", "CEL source must be text")
    r = parse(str(text))
    if isinstance(r, Exception):
        if isinstance(r, (lark.exceptions.UnexpectedToken, lark.exceptions.UnexpectedCharacters)) and r.pos_in_stream is None:
            # celpy formats the error with lark's get_context, which asserts a position; `true`/`false` have none
            ip.throw("AssertionError", str(r))
        ip.throw(CELPY_PARSE_ERROR, str(r), line=getattr(r, "line", None), column=getattr(r, "column", None))
    a = to_tree(r)
    a.attrs["text"] = str(text)
    return a


def dump(ip, tree):
    """celpy.celparser.tree_dump; the reconstruction fails on empty containers inside other nodes."""
    lt = getattr(tree, "lark", None)
    if lt is None:
        return ip.fresh("tree text", STR)
    try:
        return _dump(lt)
    except IndexError:
        ip.throw("IndexError", "pop from empty list")
    except AssertionError:
        ip.throw("AssertionError")


def _dump(lt):
    # transcription of celpy.celparser.DumpAST (bottom-up visitor over a stack)
    st = []

    def visit(t):
        for c in t.children:
            if isinstance(c, lark.Tree):
                visit(c)
        d, ch = str(t.data), t.children
        n = len(ch)
        if d == "expr":
            if n > 1:
                r, l, c = st.pop(), st.pop(), st.pop()
                st.append(f"{c} ? {l} : {r}")
        elif d in ("conditionalor", "conditionaland"):
            if n > 1:
                r, l = st.pop(), st.pop()
                st.append(f"{l} {'||' if d == 'conditionalor' else '&&'} {r}")
        elif d in ("relation", "addition", "multiplication", "unary"):
            if n > 1:
                r, l = st.pop(), st.pop()
                st.append(f"{l} {r}")
        elif d.startswith(("relation_", "addition_", "multiplication_")):
            st.append(f"{st.pop()} {d.split('_')[1]} ")
        elif d == "unary_not":
            st.append("!")
        elif d == "unary_neg":
            st.append("-")
        elif d == "member_dot":
            if st:
                st.append(f"{st.pop()}.{ch[1]}")
        elif d == "member_dot_arg":
            e = st.pop() if n == 3 else ""
            st.append(f"{st.pop()}.{ch[1]}({e})")
        elif d == "member_index":
            r, l = st.pop(), st.pop()
            st.append(f"{l}[{r}]")
        elif d == "member_object":
            e = st.pop() if n == 2 else ""
            st.append(f"{st.pop()}{{{e}}}")
        elif d in ("dot_ident_arg", "ident_arg"):
            e = st.pop() if n == 2 else ""
            st.append(f"{'.' if d[0] == 'd' else ''}{ch[0]}({e})")
        elif d == "dot_ident":
            st.append(f".{ch[0]}")
        elif d in ("ident", "literal"):
            st.append(str(ch[0]))
        elif d == "paren_expr":
            if st:
                st.append(f"({st.pop()})")
        elif d == "list_lit":
            st.append(f"[{st.pop()}]" if st else "")
        elif d == "map_lit":
            st.append(f"{{{st.pop()}}}" if st else "{}")
        elif d == "exprlist":
            st.append(", ".join(reversed([st.pop() for _ in ch])))
        elif d == "fieldinits":
            assert len(ch) % 2 == 0
            st.append(", ".join(st.pop() for _ in ch[::2]))
        elif d == "mapinits":
            st.append(", ".join(reversed([(lambda v, k: f"{k}: {v}")(st.pop(), st.pop()) for _ in ch[::2]])))
    visit(lt)
    return st[0]


# ---------------------------------------------------------------------------------------------------------
def error(msg, tree=None):
    return AInst(CELPY_EVAL_ERROR, {"args": (msg,), "tree": tree, "token": None, "line": None, "column": None})


def is_error(v):
    return isinstance(v, AInst) and v.cls.issub(CELPY_EVAL_ERROR)


class NSet:
    """values visited by FindIdent"""


class Ev:
    def __init__(self, ip, functions, scope):
        self.ip = ip
        self.functions = functions
        self.scope = scope      # list of dicts name -> value, innermost last

    def ev(self, t):
        while True:
            d = t.attrs["data"]
            ch = t.attrs["children"].items
            if len(ch) == 1 and d in ("expr", "conditionalor", "conditionaland", "relation", "addition", "multiplication", "unary", "member"):
                t = ch[0]
                continue
            break
        return getattr(self, "x_" + d)(t, ch)

    # operators ------------------------------------------------------------------
    def apply(self, tree, name, fn):
        ip = self.ip
        try:
            return fn()
        except AExc as e:
            if e.value.cls.issub(EXC["TypeError"]):
                return error(f"found no matching overload for {name}", tree)
            raise

    def x_expr(self, t, ch):
        ip = self.ip
        c = ip.force(self.ev(ch[0]))
        if is_error(c):
            self.ev(ch[1])
            return error("found no matching overload for _?_:_", t)
        if not ip.truth(c):
            r = self.ev(ch[2])
        else:
            r = self.ev(ch[1])
        if not self.is_bool(c):
            return error("found no matching overload for _?_:_", t)
        return r

    def is_bool(self, v):
        k = self.ip.class_of(v)
        return k is not None and k.issub(C_BOOL)

    def bools(self, ch):
        ip = self.ip
        return ip.force(self.ev(ch[0])), ip.force(self.ev(ch[1]))

    def x_conditionalor(self, t, ch):
        return self.logic(t, ch, True)

    def x_conditionaland(self, t, ch):
        return self.logic(t, ch, False)

    def logic_values(self, l, r, absorbing):
        ip = self.ip
        lb, rb = self.is_bool(l), self.is_bool(r)
        if not lb and not rb:
            ip.throw("TypeError", "no overload")
        if lb:
            if ip.truth(l) == absorbing:
                return l
            return r
        if ip.truth(r) == absorbing:
            return r
        return l

    def logic(self, t, ch, absorbing):
        l, r = self.bools(ch)
        return self.apply(t, "logic", lambda: self.logic_values(l, r, absorbing))

    def cmp_ok(self, l, r, ordered):
        """celtypes comparisons raise TypeError between unrelated types."""
        ip = self.ip
        kl, kr = ip.class_of(l), ip.class_of(r)
        if is_error(l) or is_error(r):
            return not ordered
        num = (C_INT, C_UINT, C_DOUBLE)
        if ordered and kl in (C_BOOL,) + num and kr in (C_BOOL,) + num:
            return kl is not C_INT or kr is C_INT
        for a, b, va, vb in ((kl, kr, l, r), (kr, kl, r, l)):
            if a is not None and a.issub(LIST) and not (b is not None and b.issub(LIST)):
                return False
            if a is not None and a.issub(DICT) and not (b is not None and b.issub(DICT)):
                return False
            if a is C_BOOL and b is not None and b is not C_BOOL and b.issub(INT):
                return False
        if ordered:
            num = (INT, FLOAT)
            if any(kl.issub(n) for n in num) != any(kr.issub(n) for n in num):
                return False
            if kl.issub(STR) != kr.issub(STR):
                return False
            if kl.issub(DICT) or kl.issub(LIST) or l is None:
                return False
        return True

    def x_relation(self, t, ch):
        ip = self.ip
        op, rt = ch
        l = ip.force(self.ev(op.attrs["children"].items[0]))
        r = ip.force(self.ev(rt))
        nm = op.attrs["data"]

        def run():
            if nm == "relation_in":
                if is_error(r):
                    ip.throw("TypeError", "not iterable")
                bad = None
                for c in ip.iter_values(r):
                    try:
                        if ip.eq(c, l):
                            return CBool(1)
                    except AExc as x:
                        if not x.value.cls.issub(EXC["TypeError"]):
                            raise
                        bad = error("no such overload")
                return bad or CBool(0)
            if nm in ("relation_eq", "relation_ne"):
                e = ip.eq(l, r)
                return CBool(e == (nm == "relation_eq"))
            if not self.cmp_ok(l, r, True):
                ip.throw("TypeError", "no such overload")
            return CBool(bool(ip.order({"relation_lt": "lt", "relation_le": "le", "relation_gt": "gt", "relation_ge": "ge"}[nm], l, r)))
        return self.apply(t, nm, run)

    def arith(self, t, ch):
        ip = self.ip
        op, rt = ch
        l = ip.force(self.ev(op.attrs["children"].items[0]))
        r = ip.force(self.ev(rt))
        nm = op.attrs["data"].split("_")[1]
        if is_error(l):
            return l
        if is_error(r):
            return r

        def run():
            kl, kr = ip.class_of(l), ip.class_of(r)
            if kl is None or kr is None:
                return ip.unmodelled("arithmetic on an unknown value")
            if nm == "add" and kl.issub(STR) and kr.issub(STR):
                return lib.c_cstring(ip, C_STRING, [ip.mkstr([l, r])], {})
            if nm == "add" and kl.issub(LIST) and kr.issub(LIST):
                return AList(ip.listof(l) + ip.listof(r), C_LIST)
            if l is None or r is None or kl.issub(DICT) or kr.issub(DICT) or kl.issub(STR) or kr.issub(STR) or kl is C_BOOL or kr is C_BOOL or kl.issub(LIST) or kr.issub(LIST):
                ip.throw("TypeError", "no such overload")
            if not isinstance(l, (int, float)) or not isinstance(r, (int, float)):
                return ip.unmodelled("arithmetic on an unknown number")
            fl = isinstance(l, float) or isinstance(r, float)
            try:
                if nm == "add":
                    v = l + r
                elif nm == "sub":
                    v = l - r
                elif nm == "mul":
                    v = l * r
                elif nm == "div":
                    if fl:
                        v = float(l) / float(r)
                    else:
                        sg = 1 if (l < 0) == (r < 0) else -1
                        v = sg * (abs(int(l)) // abs(int(r)))
                else:
                    sg = -1 if l < 0 else 1
                    v = sg * (abs(int(l)) % abs(int(r)))
            except ZeroDivisionError:
                return error("divide by zero", t)
            if fl:
                return CDouble(v)
            if isinstance(l, CUint) and isinstance(r, CUint):
                if not 0 <= v < 2 ** 64:
                    return error("return error for overflow", t)
                return CUint(v)
            if not -2 ** 63 <= v < 2 ** 63:
                return error("return error for overflow", t)
            return CInt(v)
        return self.apply(t, nm, run)

    x_addition = arith
    x_multiplication = arith

    def x_unary(self, t, ch):
        ip = self.ip
        v = ip.force(self.ev(ch[1]))

        def run():
            if ch[0].attrs["data"] == "unary_not":
                if not self.is_bool(v):
                    ip.throw("TypeError", "not")
                return CBool(0 if ip.truth(v) else 1)
            if is_error(v):
                return v
            if self.is_bool(v) or not isinstance(v, (int, float)):
                ip.throw("TypeError", "neg")
            return CDouble(-v) if isinstance(v, float) else CInt(-v)
        return self.apply(t, "unary", run)

    # members --------------------------------------------------------------------
    def x_member_dot(self, t, ch):
        ip = self.ip
        m = ip.force(self.ev(ch[0]))
        name = CStr(str(ch[1]))
        if is_error(m):
            return m
        k = ip.class_of(m)
        if k is not None and k.issub(DICT):
            if not k.issub(C_MAP):
                return error("does not support field selection", t)
            return self.lookup(m, name, t, f"no such member in mapping: {name!r}")
        if isinstance(m, Sym) and k is None:
            if ip.isinstance_(m, C_MAP):
                return self.lookup(m, name, t, "no such member")
        return error("does not support field selection", t)

    def lookup(self, m, key, t, msg):
        ip = self.ip
        h = ip.hooks.get("cel_lookup")
        if h:
            h(ip, m, key)
        d = ip.sym_dict(m) if isinstance(m, Sym) else m
        v = ip.dict_get(d, key)
        return error(msg, t) if v is MISSING else v

    def x_member_index(self, t, ch):
        ip = self.ip
        m, i = ip.force(self.ev(ch[0])), ip.force(self.ev(ch[1]))
        if is_error(m) or is_error(i) or m is None:
            return error("found no matching overload for _[_]", t)
        k = ip.class_of(m)
        if k is not None and k.issub(DICT):
            try:
                return self.lookup(m, i, t, "no such key")
            except AExc as e:
                if e.value.cls.issub(EXC["TypeError"]):
                    return error("found no matching overload for _[_]", t)
                raise
        if k is not None and k.issub(LIST):
            try:
                return ip.getitem(m, i)
            except AExc as e:
                if e.value.cls.issub(EXC["TypeError"]) or e.value.cls.issub(EXC["IndexError"]):
                    return error("invalid_argument", t)
                raise
        if k is not None and k.issub(STR) and isinstance(m, str):
            if isinstance(i, int) and 0 <= i < len(m):
                return str(m)[i]
            return error("invalid_argument", t)
        if isinstance(m, Sym):
            return ip.unmodelled("index of an unknown value")
        return error("found no matching overload for _[_]", t)

    def x_member_object(self, t, ch):
        v = self.ev(ch[0])
        if len(ch) == 1 or is_error(v):
            return error("object construction", t) if not is_error(v) else v
        self.ip.throw("TypeError", "not a message type")

    MACROS = {"map", "filter", "all", "exists", "exists_one", "reduce", "min"}

    def find_ident(self, t):
        """FindIdent.in_tree"""
        out = []

        def walk(x):
            for c in x.attrs["children"].items:
                if isinstance(c, AInst):
                    walk(c)
            if x.attrs["data"] == "ident":
                out.append(str(x.attrs["children"].items[0]))
        walk(t)
        return out[-1] if out else None

    def child(self, binds):
        return Ev(self.ip, self.functions, self.scope + [binds])

    def sub(self, ev, tree):
        """nested evaluation: raises the error"""
        v = self.ip.force(ev.ev(tree))
        if is_error(v):
            raise AExc(v)
        return v

    def x_member_dot_arg(self, t, ch):
        ip = self.ip
        name = str(ch[1])
        if name in self.MACROS:
            m = ip.force(self.ev(ch[0]))
            if is_error(m):
                return m
            args = ch[2].attrs["children"].items if len(ch) > 2 else []
            if name == "min":
                vals = ip.listof(m)
                if not vals:
                    return error("Attempt to reduce an empty sequence", t)
                return lib.BUILTINS["min"].fn(ip, [AList(vals)], {})
            if name == "reduce":
                if len(args) != 4:
                    ip.throw("ValueError", "not enough values to unpack")
                a, b = self.find_ident(args[0]), self.find_ident(args[1])
                acc = self.ev(args[2])
                for x in list(ip.iter_values(m)):
                    acc = self.sub(self.child({a: acc, b: x}), args[3])
                return acc
            if len(args) != 2:
                ip.throw("ValueError", "not enough values to unpack")
            var = self.find_ident(args[0])
            if var is None:
                ip.throw("RuntimeError", "bad macro node")
            if m is None or isinstance(m, (int, float)):
                ip.throw("TypeError", "not iterable")
            vals = list(ip.iter_values(m))
            body = args[1]
            if name == "map":
                return AList([self.sub(self.child({var: x}), body) for x in vals], C_LIST)
            if name == "filter":
                return AList([x for x in vals if ip.truth(self.sub(self.child({var: x}), body))], C_LIST)
            if name == "exists_one":
                return CBool(sum(1 for x in vals if ip.truth(self.sub(self.child({var: x}), body))) == 1)
            acc = CBool(name == "all")
            for x in vals:
                r = ip.force(self.child({var: x}).ev(body))
                try:
                    acc = self.logic_values(acc, r, name != "all")
                except AExc as e:
                    if not e.value.cls.issub(EXC["TypeError"]):
                        raise
                    acc = error("no such overload")
            return acc
        m = ip.force(self.ev(ch[0]))
        args = [ip.force(self.ev(c)) for c in ch[2].attrs["children"].items] if len(ch) > 2 else []
        err = next((a for a in args if is_error(a)), None)
        return self.function(str(ch[1]), [m] + args, err if not is_error(m) else m)

    def function(self, name, args, err):
        ip = self.ip
        f = MISSING
        if isinstance(self.functions, ADict):
            f = ip.dict_get(self.functions, name)
        elif isinstance(self.functions, (AList, tuple)):
            for x in _seq(self.functions):
                if getattr(x, "name", None) == name:
                    f = x
        if f is MISSING:
            f = BASE.get(name, MISSING)
        if f is MISSING:
            return error(f"undeclared reference to '{name}'")
        if err is not None:
            return err
        try:
            r = f(self, args) if not isinstance(f, (AFunc, ABuiltin, ABound, AClass, AInst)) else ip.call(f, args, {})
            return ip.force(r)
        except AExc as e:
            k = e.value.cls
            if k.issub(EXC["ValueError"]):
                return error("return error for overflow")
            if k.issub(EXC["TypeError"]) or k.issub(EXC["AttributeError"]):
                return error("no such overload")
            raise

    # primaries ------------------------------------------------------------------
    def x_primary(self, t, ch):
        ip = self.ip
        c = ch[0]
        d, cc = c.attrs["data"], c.attrs["children"].items
        if d == "literal":
            return self.literal(c, cc[0])
        if d == "paren_expr":
            return self.ev(cc[0])
        if d == "list_lit":
            if not cc:
                return AList([], C_LIST)
            vals = [self.ev(x) for x in cc[0].attrs["children"].items]
            for v in vals:
                if not isinstance(v, Lazy) and is_error(v):
                    return v
                if isinstance(v, Lazy) and v.chosen is None and any(callable(o) or is_error(o) for _, o in v.options) and is_error(ip.force(v)):
                    return ip.force(v)
            return AList(vals, C_LIST)
        if d == "map_lit":
            out = ADict(cls=C_MAP)
            if not cc:
                return out
            it = cc[0].attrs["children"].items
            vals = [self.ev(x) for x in it]
            try:
                for k, v in zip(vals[0::2], vals[1::2]):
                    k = ip.force(k)
                    kc = ip.class_of(k)
                    if is_error(k) or kc is not None and (kc.issub(LIST) or kc.issub(DICT)):
                        ip.throw("TypeError", "unsupported map key")
                    h = ip.hk(k)
                    if h in out.e:
                        ip.throw("ValueError", f"Duplicate key {k!r}")
                    out.e[h] = [k, v]
            except AExc as e:
                if e.value.cls.issub(EXC["ValueError"]) or e.value.cls.issub(EXC["TypeError"]):
                    return error("map literal", t)
                raise
            return out
        if d == "ident" or d in ("dot_ident", "dot_ident_arg"):
            return self.ident(str(cc[0]), t)
        if d == "ident_arg":
            name = str(cc[0])
            ex = cc[1].attrs["children"].items if len(cc) > 1 else []
            if name == "has":
                vals = [ip.force(self.ev(x)) for x in ex]
                if not vals:
                    ip.throw("IndexError", "list index out of range")
                return CBool(not is_error(vals[0]))
            vals = [ip.force(self.ev(x)) for x in ex]
            if name == "dyn":
                return vals[0]
            return self.function(name, vals, None)
        raise Abort(f"CEL node {d}")

    def ident(self, name, t):
        for s in reversed(self.scope):
            if isinstance(s, ADict):
                v = self.ip.dict_get(s, name)
                if v is not MISSING:
                    return v
            elif name in s:
                return s[name]
        return error(f"undeclared reference to '{name}'", t)

    def literal(self, t, tk):
        text, k = str(tk), tk.type
        try:
            if k == "FLOAT_LIT":
                return CDouble(float(text))
            if k == "INT_LIT":
                v = int(text[2:] if text[:2].lower() == "0x" else text[3:] if text[:3].lower() == "-0x" else text, 16 if "0x" in text[:3].lower() else 10)
                if text[:3].lower() == "-0x":
                    v = -v
                if not -(1 << 63) <= v < (1 << 63):
                    raise ValueError("overflow")
                return CInt(v)
            if k == "UINT_LIT":
                return CUint(int(text[:-1], 0))
            if k == "BOOL_LIT":
                return CBool(text == "true")
            if k == "NULL_LIT":
                return None
            if k in ("STRING_LIT", "MLSTRING_LIT"):
                return CStr(unquote(text))
            if k == "BYTES_LIT":
                return CBytes(unquote(text[1:]).encode())
        except (ValueError, OverflowError) as e:
            return error(str(e), t)
        raise Abort(f"CEL literal {k}")


ESC = re.compile("\\\\[abfnrtv\"'\\\\]|\\\\\\d{3}|\\\\x[0-9a-fA-F]{2}|\\\\u[0-9a-fA-F]{4}|\\\\U[0-9a-fA-F]{8}|.")
ESCAPES = {"\\a": "\a", "\\b": "\b", "\\f": "\f", "\\n": "\n", "\\r": "\r", "\\t": "\t", "\\v": "\v", '\\"': '"', "\\'": "'", "\\\\": "\\"}


def unquote(text):
    """celpy.evaluation.celstr"""
    if text[:1] in ("R", "r"):
        return text[4:-3] if text[1:4] in ('"""', "'''") else text[2:-1]
    body = text[3:-3] if text[:3] in ('"""', "'''") else text[1:-1]
    out = []
    for m in ESC.finditer(body):
        m = m.group()
        if len(m) == 1:
            out.append(m)
        elif m[:2] in ("\\x", "\\u", "\\U"):
            out.append(chr(int(m[2:], 16)))
        elif len(m) == 4:
            out.append(chr(int(m[1:], 8)))
        else:
            out.append(ESCAPES.get(m, m))
    return "".join(out)


def _cls(k):
    return lambda e, a: e.ip.call(k, a, {})


def _size(e, a):
    if a[0] is None:
        return CInt(0)
    return CInt(int(lib.b_len(e.ip, [a[0]], {})))


def _strop(name):
    def f(e, a):
        ip = e.ip
        if not isinstance(a[0], str) or not isinstance(a[1], str):
            if isinstance(a[0], Sym) or isinstance(a[1], Sym):
                return CBool(bool(ip.choose(2, ("cel", name))))
            if name == "contains":
                return CBool(bool(ip.contains(a[0], a[1])))
            ip.throw("AttributeError", name)
        if name == "matches":
            try:
                return CBool(re.search(str(a[1]), str(a[0])) is not None)
            except re.error:
                return error("match error")
        return CBool({"contains": lambda s, x: x in s, "startsWith": str.startswith, "endsWith": str.endswith}[name](str(a[0]), str(a[1])))
    return f


def _string(e, a):
    return lib.c_cstring(e.ip, C_STRING, a, {})


BASE = {"size": _size, "string": _string, "int": _cls(C_INT), "double": _cls(C_DOUBLE), "bool": _cls(C_BOOL), "uint": _cls(C_UINT),
        "list": _cls(C_LIST), "map": _cls(C_MAP), "bytes": _cls(C_BYTES), "timestamp": _cls(C_TIMESTAMP), "duration": _cls(C_DURATION),
        "type": lambda e, a: e.ip.class_of(a[0])}
for _n in ("contains", "startsWith", "endsWith", "matches"):
    BASE[_n] = _strop(_n)

NAME_OK = re.compile(r"^[_a-zA-Z][_a-zA-Z0-9]*(\.[_a-zA-Z][_a-zA-Z0-9]*)*$")


def evaluate(ip, runner, context):
    """InterpretedRunner.evaluate"""
    ctx = ip.force(context)
    d = ctx if isinstance(ctx, ADict) else None
    if d is None and not isinstance(ctx, Sym):
        ip.throw("AttributeError", f"'{ip.class_of(ctx).name}' object has no attribute 'items'")
    if d is not None:
        for k, v in ip.dict_items(d):
            k = ip.force(k)
            if isinstance(k, str) and not NAME_OK.match(k):
                ip.throw("ValueError", f"Invalid name {k}")
    ast = ip.force(runner.attrs["ast"])
    if not ast.attrs["children"].items:
        return ip.unmodelled("evaluation of an unknown expression")
    fns = ip.force(runner.attrs.get("functions"))
    v = ip.force(Ev(ip, fns, [d if d is not None else {}]).ev(ast))
    if is_error(v):
        raise AExc(v)
    return v


HOOKS = {"cel_compile": compile_, "cel_evaluate": evaluate, "tree_dump": dump}
