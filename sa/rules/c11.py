"""C11  Static values in definitions reach results and resources unchanged."""
import itertools
import math
import re

from ..values import *
from ..scen import *
from ..wf import run_workflow

EXPLANATION = (
    "Value-flow analysis of literals through prepare (encoding into CEL text, lexing with the library's grammar, decoding) and reconcile, as interpretation of the analysed code over constants: "
    "all words over an alphabet with a representative of every character class that quoting, lexing, numeral recognition or decoding distinguishes (quotes, backslash, escape letters, digits, "
    "line breaks, control and non-ASCII characters, sign, point, exponent, blanks, brackets) up to a length bound, all number and container shapes, are placed as values and as keys in every "
    "block (return, locals, resource, overlays, create overlay, step inputs, state, templates); what comes out of the Function, the published state and the create payload must be identical.")
RULES = ["text: a string comes out character for character (decimal numerals: as that number)",
         "key: a map key comes out character for character",
         "number: integers, floats, booleans and null come out as the same JSON value",
         "structure: lists and maps keep their shape",
         "accepted: no literal makes prepare or evaluation fail"]
FLOOR = {"quick": 20000, "thorough": 60000}

VFN = "koreo.value_function.reconcile.reconcile_value_function"
ENC = "koreo.cel.encoder.encode_cel"
NUMERAL = re.compile(r"-?[0-9]+(\.[0-9]+)?([eE][+-]?[0-9]+)?\Z")

BROAD = ["a", '"', "\\", "\n", "\r", "\t", "'", " ", "=", "0", "5", "-", "+", ".", "e", "E", "x", "u", "U", "r", "R", "n", "b", "_", "{", "}", "[", "(", ",", ":", "/", "#", "$", "%", "\u00e9", "\u0663", "\x00", "\x0b",
         "\x85", "\u2028", "\U0001f4a5", "\ufeff", "`", "<", "&", "|", "!", "?"]
CORE = ['"', "\\", "\n", "\r", "'", "a", "n", "u", "0", "-", ".", "e", " ", "=", "r"]
INNER = ['"', "\\", "\n", "a", "n", "0", "-", "."]
DEEP = ['"', "\\", "\n", "n"]
LOOKS = ["inf", "nan", "-inf", "+inf", "Infinity", "NaN", "infinity", "1_000", "1_0.5", " 5", "5 ", "\t5", "5\n", "\n5", "+5", "-5", "--5", "- 5", "-0", "00", "007", "-007", "5.", ".5", "-.5", "1.5", "1.50", "-1.5", "1e5", "1E5",
         "1e+5", "1e-5", "1.5e3", "1e", "e5", "1e5.5", "1e400", "-1e400", "0e0", "0x1F", "0b1", "0o7", "5u", "5U", "5L", "5f", "1,000", "1 000", "\u0661\u0662", "\uff15", "\u00bd", "\u00b2", "9223372036854775807", "-9223372036854775808",
         "9223372036854775808", "-9223372036854775809", "99999999999999999999999", "123456789012345678", "0.1", "1.0", "100000000000000000000.5", "1.7976931348623157e308", "4.9e-324", "1.2.3", "10.0.0.1", "2020-01-01", "12:30",
         "1/2", "5%", "1e5e5", "5-", "5+", "0.", "-", "+", ".", "-.", "e", "E", "true", "false", "null", "True", "None", "yes", "no", "on", "~", "", " ", "  ", "true ", "[]", "{}", "[1,2]", '{"a":1}', "${x}", "{{x}}", "\\u0041",
         "\\x41", "\\101", "\\n", "\\", "\\\\", "\\\\\\", '\\"', '"\\', '"', '""', '"""', '""""', '\'\'\'', "r\"x\"", "R'x'", "b'x'", '"""x"""', 'r"""x"""', "a\nb", 'a\n"b"', "a\n\\b", "\\n\n", "a\r\nb", "\n", "\n\n", "a\n", "\na", 'x\\',
         'x\\\n', '"\n"', "// not a comment", "a // b", "# x", "a = b", " =x", "-=x", "x\u2028y", "caf\u00e9", "\u202eabc", "a\u0301", "\U0001f468\u200d\U0001f469", "\x7f", "\x1b[0m", "%s %d", "%(x)s", "{0}", "inputs.x", "steps.a", "a.b.c/d-e",
         "x" * 300, '"' * 40, "\\" * 41, "line\n" * 20, "*", "**", "&a", "@at", ";", "a;b", "\\d{3}", "^[a-z]+$", "\\.", "C:\\new\\table", "\\u00", "\\U0001F4A5", "\\x4", "\\8", "\\08", "\\777", "\\400"]
NUMBERS = [0, 1, -1, 5, -5, 10, 255, 2 ** 31, 2 ** 53, 2 ** 53 + 1, 2 ** 63 - 1, -2 ** 63, -2 ** 63 + 1, 0.0, 1.0, -1.0, 0.1, 1.5, -1.5, 1e22, 1e16, 1e15, 123456789.123456789, 1e-7, 1e-300, 1.7976931348623157e308, 5e-324, 2.5e10,
           True, False, None]
STRUCT = [{}, [], [[]], [{}], {"a": {}}, {"a": []}, [[], [[]]], [None], [True, False, None], {"a": {"b": {"c": {"d": [1, {"e": [[{"f": None}]]}]}}}}, [1, [2, [3, [4]]]], {"a": [1, 2, 3], "b": {"c": [], "d": ""}, "e": None},
          [1, "1.0.0", 1.5, True, None, {}, [], ""], {"x": "", "y": [""], "z": {"": ""}}, {"true": True, "null": None, "5": 5, "a.b": 1, "a-b": 2, "a b": 3, "a/b": 4}, {"metadata": {"name": "x"}, "inputs": 1, "in": 2, "if": 3, "has": 4, "_": 5},
          {"b": 1, "a": 2, "B": 3}, {f"k{i}": i for i in range(30)}, [{"a": i, "b": [i]} for i in range(12)], {"deep": {"list": [{"m": {"n": [{"o": "x"}]}}]}}, [0, 0, 0], ["a", "a"], [[1], [1]], {"a": 0, "b": False, "c": "", "d": None, "e": 0.0}]


def words(tier):
    out = list(LOOKS)
    out += ["".join(w) for n in (1, 2) for w in itertools.product(BROAD, repeat=n)]
    out += ["".join(w) for w in itertools.product(CORE if tier == "quick" else BROAD[:24], repeat=3)]
    out += ["".join(w) for w in itertools.product(INNER if tier == "quick" else CORE, repeat=4)]
    out += ["".join(w) for n in (5, 6) + ((7,) if tier == "thorough" else ()) for w in itertools.product(DEEP, repeat=n)]
    points = list(range(0x250 if tier == "quick" else 0x3100)) + list(range(0x250, 0x110000, 1999 if tier == "quick" else 97))
    out += [x for c in points if not 0xD800 <= c < 0xE000 for x in ((chr(c),) if c < 0x80 else (f"{chr(c)}", f'5{chr(c)}"'))]
    seen = set()
    return [w for w in out if not w.startswith("=") and not (w in seen or seen.add(w))]


def equal(want, got):
    """Same JSON value; a decimal numeral may only be that number (or, if no CEL number holds it, the text)."""
    if isinstance(want, dict):
        return isinstance(got, dict) and set(want) == set(got) and all(isinstance(k, str) for k in got) and all(equal(want[k], got[k]) for k in want)
    if isinstance(want, list):
        return isinstance(got, list) and len(want) == len(got) and all(equal(a, b) for a, b in zip(want, got))
    if isinstance(want, str) and want.startswith("="):
        return True     # an expression, not a literal
    if isinstance(want, str) and NUMERAL.match(want):
        n = float(want) if re.search("[.eE]", want) else int(want)
        if isinstance(n, int) and not -2 ** 63 <= n < 2 ** 63 or isinstance(n, float) and not math.isfinite(n):
            return got == want and isinstance(got, str)
        return isinstance(got, (int, float)) and not isinstance(got, bool) and got == n
    if isinstance(want, bool) or want is None or isinstance(want, str):
        return type(got) is type(want) and got == want
    return type(got) is type(want) and got == want and (not isinstance(want, float) or math.copysign(1, got) == math.copysign(1, want))


def differing(want, got, path=""):
    """Every place where they differ: (path, want, got, is_key)."""
    if isinstance(want, dict) and isinstance(got, dict):
        for k in want:
            if k not in got:
                yield path, k, sorted(map(repr, got))[:3], True
            else:
                yield from differing(want[k], got[k], f"{path}.{k!r}")
        for k in got:
            if k not in want:
                yield path, "no such key", k, True
    elif isinstance(want, list) and isinstance(got, list) and len(want) == len(got):
        for i, (a, b) in enumerate(zip(want, got)):
            yield from differing(a, b, f"{path}[{i}]")
    elif not equal(want, got):
        yield path, want, got, False


def rule_for(w, is_key):
    if is_key:
        return "key"
    if isinstance(w, str):
        return "text"
    return "structure" if isinstance(w, (dict, list)) else "number"


def out_vf(s, spec, inputs=None, base=None):
    try:
        fn, _ = s.prepare("ValueFunction", "vf", spec)
    except PrepareFailed as e:
        return None, f"prepare refuses it: {str(e)[:200]}"
    except AExc as e:
        return None, f"prepare raises {e.value!r}"[:300]
    r = s.call(VFN, location="loc", function=fn, inputs=s.cel(inputs or {}))
    if s.kind(r) not in ("value", "Ok"):
        return None, f"evaluation gives {s.out(r)}"[:300]
    return plain(s.ip, r), None


# block -> (scenario, document) -> what comes out in place of the document
def via_return(s, doc):
    r, e = out_vf(s, {"return": {"v": doc}})
    return (r["v"], None) if r is not None else (None, e)


def via_return_map(s, doc):
    """A map is taken apart into the overlay index."""
    return out_vf(s, {"return": doc})


def via_locals(s, doc):
    r, e = out_vf(s, {"locals": {"x": doc}, "return": {"v": "=locals.x"}})
    return (r["v"], None) if r is not None else (None, e)


def payload(s, over, key="d"):
    c = Cluster(s.ip)
    try:
        fn, _ = s.prepare("ResourceFunction", "rf", rf_spec(**over))
    except PrepareFailed as e:
        return None, f"prepare refuses it: {str(e)[:200]}"
    except AExc as e:
        return None, f"prepare raises {e.value!r}"[:300]
    n = len(s.ip.events)
    try:
        r, _ = reconcile_rf(s, fn, c)
    except AExc as e:
        return None, f"reconcile raises {e.value!r}"[:300]
    ev = [e for e in mutations(s.ip.events[n:]) if e.data["op"] == "create"]
    if not ev:
        return None, f"nothing is created: {s.out(r)}"[:300]
    o = wire(s.ip, c.find("things", "ns1", "thing-1"))
    return o.get("spec", {}).get(key), None


def via_resource(s, doc):
    return payload(s, {"resource": {"spec": {"d": doc}}})


def via_overlay(s, doc):
    return payload(s, {"resource": {"spec": {"a": 1}}, "overlays": [{"overlay": {"spec": {"d": doc}}}]})


def via_create(s, doc):
    return payload(s, {"resource": {"spec": {"a": 1}}, "create": {"overlay": {"spec": {"d": doc}}}})


def via_overlay_ref(s, doc):
    s.cache("ValueFunction", "ovf", {"return": {"spec": {"d": doc}}})
    return payload(s, {"resource": {"spec": {"a": 1}}, "overlays": [{"overlayRef": {"kind": "ValueFunction", "name": "ovf"}}]})


def via_overlay_inputs(s, doc):
    s.cache("ValueFunction", "ovf", {"return": {"spec": {"d": "=inputs.x"}}})
    return payload(s, {"resource": {"spec": {"a": 1}}, "overlays": [{"overlayRef": {"kind": "ValueFunction", "name": "ovf"}, "inputs": {"x": doc}}]})


def via_template(s, doc):
    s.cache("ResourceTemplate", "tpl", {"template": {"apiVersion": "test.koreo.dev/v1", "kind": "Thing", "spec": {"d": doc}}})
    return payload(s, {"resourceTemplateRef": {"name": "tpl"}})


def workflow_state(s, step, key="v"):
    try:
        wf, _ = s.prepare("Workflow", "wf", {"steps": [step]})
    except (PrepareFailed, AExc) as e:
        return None, f"prepare fails: {e}"[:300]
    r = run_workflow(s, wf, Cluster(s.ip), {})
    st = plain(s.ip, s.attr(r, "state"))
    if key not in st:
        return None, f"state is {st!r}, result {s.out(s.attr(r, 'result'))}"[:300]
    return st[key], None


def via_inputs(s, doc):
    s.cache("ValueFunction", "echo", {"return": {"v": "=inputs.x"}})
    return workflow_state(s, {"label": "one", "ref": {"kind": "ValueFunction", "name": "echo"}, "inputs": {"x": doc}, "state": {"v": "=value.v"}})


def via_state(s, doc):
    s.cache("ValueFunction", "echo", {"return": {"v": 1}})
    return workflow_state(s, {"label": "one", "ref": {"kind": "ValueFunction", "name": "echo"}, "state": {"v": doc}})


def via_foreach(s, doc):
    s.cache("ValueFunction", "echo", {"return": {"v": "=inputs.x"}})
    r, e = workflow_state(s, {"label": "one", "ref": {"kind": "ValueFunction", "name": "echo"}, "inputs": {"x": doc}, "forEach": {"itemIn": "=[1]", "inputKey": "i"}, "state": {"v": "=value"}})
    return (r[0]["v"], None) if r is not None else (None, e)


def via_rf_return(s, doc):
    c = Cluster(s.ip)
    try:
        fn, _ = s.prepare("ResourceFunction", "rf", rf_spec(resource={"spec": {"a": 1}}, **{"return": {"v": doc}}))
    except (PrepareFailed, AExc) as e:
        return None, f"prepare fails: {e}"[:300]
    reconcile_rf(s, fn, c)
    r, _ = reconcile_rf(s, fn, c)
    try:
        r = plain(s.ip, r)
        return r["v"], None
    except (KeyError, TypeError, AttributeError):
        return None, f"evaluation gives {s.out(r) if not isinstance(r, dict) else r!r}"[:300]


def via_rf_locals(s, doc):
    return payload(s, {"locals": {"x": doc}, "resource": {"spec": {"d": "=locals.x"}}})


def via_patch(s, doc):
    """The live object lacks the value: the correction must send it."""
    c = Cluster(s.ip)
    try:
        fn, _ = s.prepare("ResourceFunction", "rf", rf_spec(resource={"spec": {"a": 1}}))
        fn2, _ = s.prepare("ResourceFunction", "rf", rf_spec(resource={"spec": {"a": 1, "d": doc}}))
    except (PrepareFailed, AExc) as e:
        return None, f"prepare fails: {e}"[:300]
    reconcile_rf(s, fn, c)
    n = len(s.ip.events)
    r, _ = reconcile_rf(s, fn2, c)
    ev = mutations(s.ip.events[n:])
    if [e.data["op"] for e in ev] != ["patch"]:
        return None, f"no correction is sent: {[e.data['op'] for e in ev]} {s.out(r)}"[:300]
    return wire(s.ip, ev[0].data["payload"]).get("spec", {}).get("d"), None


BLOCKS = {"rf-return": via_rf_return, "rf-locals": via_rf_locals, "patch": via_patch, "return": via_return, "return-map": via_return_map, "locals": via_locals, "resource": via_resource, "overlay": via_overlay, "create": via_create, "overlay-ref": via_overlay_ref,
          "overlay-inputs": via_overlay_inputs, "template": via_template, "inputs": via_inputs, "state": via_state, "forEach-inputs": via_foreach}


def agree(block, want, got):
    if block == "template":     # a template is no block of expressions: numerals may stay text
        return want == got and same(want, got) or equal(want, got)
    return equal(want, got)


def judge(rec, p, block, ok):
    """ok: list of (value, is_key, got, error)"""
    n = 0
    for v, is_key, got, err in ok:
        rule = rule_for(v, is_key)
        if err is not None:
            rec.check(False, "accepted", f"{ENC}:{block}", lambda: f"{'key' if is_key else 'value'} {v!r} in {block}: {err}", p)
        else:
            rec.check(got is True, rule, f"{ENC}:{block}", lambda: f"{'key' if is_key else 'value'} {v!r} in {block} comes out as {got[0]!r}", p)


def split_out(s, block, items, is_key, wrap):
    """Runs the block on all items at once, and one by one when anything differs."""
    fn = BLOCKS[block]
    doc = wrap(items)
    got, err = fn(s, doc)
    if err is None and agree(block, doc, got):
        return [(x, is_key, True, None) for x in items]
    if len(items) == 1:
        if err is not None:
            return [(items[0], is_key, None, err)]
        d = next(iter(differing(doc, got)), (None, None, got, False))
        return [(items[0], is_key, (d[2],), None)]
    m = len(items) // 2
    if err is None and not is_key and isinstance(doc, list) and isinstance(got, list) and len(got) == len(doc):
        return [(w, is_key, True if agree(block, w, g) else (g,), None) for w, g in zip(doc, got)]
    return split_out(s, block, items[:m], is_key, wrap) + split_out(s, block, items[m:], is_key, wrap)


def as_list(items):
    return list(items)


def as_keys(items):
    return {k: i for i, k in enumerate(items)}


def as_leaves(items):
    return {f"k{i}": x for i, x in enumerate(items)}


def as_nested(items):
    half = len(items) // 2
    return {"m": {f"k{i}": {"x": x} for i, x in enumerate(items[:half])}, "l": [{"v": [x]} for x in items[half:]]}


EXPRS = ["=1 + 1", '="q"', "=[1, {'a': 'b'}]", "={}", "=true"]


def as_mixed(items):
    """Literals between expressions."""
    out = []
    for i, x in enumerate(items):
        out += [x, EXPRS[i % len(EXPRS)], {"k": x, "e": EXPRS[(i + 1) % len(EXPRS)]}]
    return {"l": out, "last": items[-1]}


def job(block, items, is_key, wrap):
    def run(rec):
        for p in rec.explore(scenario(rec.chk, lambda s: split_out(s, block, items, is_key, wrap))):
            if p.error:
                rec.check(False, "accepted", f"{ENC}:{block}", lambda: f"{block}: {p.error[0]} {getattr(p.error[1], 'value', p.error[1])!r} for one of {items[:5]!r}...", p, stack=getattr(p.error[1], "trace", None))
                continue
            judge(rec, p, block, p.outcome[1])
    return run


def scenarios(chk, tier):
    ws = words(tier)
    step = 400 if tier == "quick" else 800
    for i in range(0, len(ws), step):
        yield f"words:{i}", lambda rec, x=ws[i:i + step]: [job("return", x[j:j + 60], False, as_list)(rec) for j in range(0, len(x), 60)]
    hard = LOOKS + ["".join(w) for n in (1, 2) for w in itertools.product(INNER + ["=", "r", " "], repeat=n) if w[0] != "="]
    hard = list(dict.fromkeys(hard))
    for block in BLOCKS:
        for name, items, is_key, wrap in (("text", hard, False, as_list), ("leaves", hard, False, as_leaves), ("nested", hard, False, as_nested), ("numbers", NUMBERS, False, as_list), ("number-leaves", NUMBERS, False, as_leaves),
                                          ("struct", STRUCT, False, as_list), ("struct-leaves", STRUCT, False, as_leaves), ("mixed", hard, False, as_mixed), ("mixed-numbers", NUMBERS, False, as_mixed),
                                          ("keys", hard + ["=", "=a", "=1 + 1", "=inputs.x", '="'], True, as_keys)):
            if block == "return-map" and wrap is as_list:
                continue
            if tier == "quick" and block not in ("return", "return-map", "resource", "inputs") and name in ("leaves", "number-leaves", "struct-leaves", "mixed-numbers"):
                continue
            yield f"{block}:{name}", job(block, items, is_key, wrap)
    broad = ["".join(w) for n in (1, 2) for w in itertools.product(BROAD, repeat=n)] + list(dict.fromkeys(chr(c) for c in range(0x300)))
    for i in range(0, len(broad), 400):
        yield f"keys:{i}", lambda rec, x=broad[i:i + 400]: [job("return-map", x[j:j + 60], True, as_keys)(rec) for j in range(0, len(x), 60)]
