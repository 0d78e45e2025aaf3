"""C12  Targets and returns are ordered deep merges; evaluation is pure."""
import copy
import itertools

from ..values import *
from ..scen import *
from ..rf import Later, judged, one_pass, ANNOTATION

EXPLANATION = (
    "The overlay compiler and applier are interpreted for every overlay tree over two keys and depth two (plus wider and deeper families) against bases of every overlap pattern, each leaf carrying a distinct value, "
    "and the result is compared with a reference deep merge of the documents; the whole pipeline (inline resource / template, lists of inline and function overlays with skipIf, create overlay, "
    "ValueFunction over its base, computed leaves reading inputs, locals and the current resource) is compared the same way through the create payload. Heap-write effects: the inputs, the base, the "
    "cached template and the prepared function are snapshotted before and compared after every evaluation, and a second evaluation must agree with the first.")
RULES = ["merge: the result is the ordered deep merge (maps merge key by key, everything else replaces)",
         "target: the object sent is the base with each non-skipped overlay merged in listed order",
         "pure: inputs, base, cached template and prepared function are unchanged by evaluation",
         "repeat: evaluating again gives an equal result"]
FLOOR = {"quick": 12000, "thorough": 35000}

VFN = "koreo.value_function.reconcile.reconcile_value_function"
APPLY = "koreo.cel.evaluation.evaluate_overlay"
RFN = "koreo.resource_function.reconcile.reconcile_resource_function"


class E:
    """A computed leaf: expression text and its value given (inputs, locals, resource)."""

    def __init__(self, text, fn):
        self.text, self.fn = text, fn

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        return self.text


def text_of(doc):
    if isinstance(doc, E):
        return doc.text
    if isinstance(doc, dict):
        return {k: text_of(v) for k, v in doc.items()}
    if isinstance(doc, list):
        return [text_of(v) for v in doc]
    return doc


def value_of(doc, env):
    if isinstance(doc, E):
        return copy.deepcopy(doc.fn(env))
    if isinstance(doc, dict):
        return {k: value_of(v, env) for k, v in doc.items()}
    if isinstance(doc, list):
        return [value_of(v, env) for v in doc]
    return doc


def merge(base, over, env):
    """Reference: `over` deep-merged onto `base`, computed leaves seeing `base` as the resource."""
    env = {**env, "resource": base}

    def go(b, o):
        out = copy.deepcopy(b)
        for k, v in o.items():
            if isinstance(v, dict) and v:
                out[k] = go(out[k] if isinstance(out.get(k), dict) else {}, v)
            else:
                out[k] = value_of(v, env)
        return out
    return go(base, over)


# ---------------------------------------------------------------- shapes
_ABSENT = object()


def shapes(keys, depth):
    """Every tree over the keys: each absent, scalar, list, {} or a subtree."""
    opts = [_ABSENT, "s", "l", "e"]
    if depth > 1:
        opts = opts + list(shapes(keys, depth - 1))
    out = []
    for combo in itertools.product(opts, repeat=len(keys)):
        d = {k: c for k, c in zip(keys, combo) if c is not _ABSENT}
        if d:
            out.append(d)
    return out


class Fill:
    def __init__(self, tag):
        self.n, self.tag = 0, tag

    def __call__(self, shape):
        out = {}
        for k, c in shape.items():
            self.n += 1
            if isinstance(c, dict):
                out[k] = self(c)
            elif c == "s":
                out[k] = f"{self.tag}{self.n}"
            elif c == "l":
                out[k] = [f"{self.tag}{self.n}", self.n]
            elif c == "e":
                out[k] = {}
            elif c == "x":
                m = self.n
                out[k] = E(f"='{self.tag}' + string({m} + inputs.one)", lambda env, m=m, t=self.tag: f"{t}{m + env['inputs']['one']}")
            else:
                out[k] = c
        return out


def fill(shape, tag):
    return Fill(tag)(shape)


def wide_and_deep():
    """Families where positions matter: siblings after nested maps, several nested maps, deep chains."""
    leaf = ["s", "l", "e", "x"]
    out = []
    for n in range(1, 7):
        for nested in itertools.product((0, 1, 2, 3), repeat=n) if n <= 4 else [t for t in itertools.product((0, 1, 3), repeat=n) if sum(1 for x in t if x) in (1, 2)]:
            d = {}
            for i, m in enumerate(nested):
                d[f"k{i}"] = leaf[i % 4] if m == 0 else {f"q{j}": leaf[(i + j) % 4] for j in range(m)}
            out.append(d)
    for order in itertools.permutations(range(3)):
        t = {"a": {"b": {"c": {"d": "s", "e": "x"}, "f": "s"}, "g": {"h": "s", "i": {"j": "l", "k": "s"}}}, "m": "s", "n": {"o": {"p": "s"}, "q": "s"}, }
        ks = list(t)
        out.append({ks[i]: t[ks[i]] for i in order})
        out.append({ks[i]: {"w": t[ks[i]] if isinstance(t[ks[i]], dict) else {"v": t[ks[i]]}, "z": "s"} for i in order})
    chain = "s"
    for i in range(12):
        chain = {"n": chain, "m": "x", "o": {"p": "s"}} if i % 3 else {"a": "s", "n": chain}
        out.append(chain)
    return out


def base_for(shape, how, fill_):
    """A base overlapping the overlay shape in one particular way."""
    if how == "empty":
        return {}
    if how == "same":
        return fill_(shape)

    def go(sh, d=0):
        out = {}
        for i, (k, c) in enumerate(sh.items()):
            if how == "other":          # maps where the overlay has none, and the other way round
                out[k] = "s" if isinstance(c, dict) else {"u": "s", "w": {"x1": "l"}}
            elif how == "extra":
                out[k] = go(c, d + 1) if isinstance(c, dict) else c
            elif how == "partial":
                if i % 2 == d % 2:
                    out[k] = go(c, d + 1) if isinstance(c, dict) else "s"
            elif how == "lists":
                out[k] = "l"
            elif how == "empties":
                out[k] = "e"
        if how in ("extra", "partial"):
            out["extra"] = {"u": "s", "deep": {"v": "l", "e": "e"}}
            out["zz"] = "s"
        return out
    return fill_(go(shape))


BASES = ("empty", "same", "other", "extra", "partial", "lists", "empties")


def vf_result(s, fn, inputs, base):
    """One evaluation; (host result, problem)"""
    kw = {} if base is None else {"value_base": base}
    r = s.call(VFN, location="loc", function=fn, inputs=inputs, **kw)
    if s.kind(r) not in ("value", "Ok"):
        return None, f"evaluation gives {s.out(r)}"[:300]
    return plain(s.ip, r), None


def ALTER(inputs):
    out = {k: (v + 1 if isinstance(v, int) and not isinstance(v, bool) else not v if isinstance(v, bool) else v + "2" if isinstance(v, str) else copy.deepcopy(v)) for k, v in inputs.items()}
    if "m" in out:
        out["m"]["a"]["x"] = "altered"
        out["m"]["b"] = "C"
        out["l"] = [7]
    return out


def vf_cases(cases, alternate=True):
    """cases: (overlay with E leaves, base, inputs)"""
    def body(s, later):
        ip = s.ip
        for over, locs, base, inputs in cases:
            spec = {"return": text_of(over)}
            if locs:
                spec["locals"] = text_of(locs)
            fn, _ = s.prepare("ValueFunction", "vf", spec)
            ci = s.cel(inputs)
            cb = s.cel(base)
            before = freeze(ip, ci), freeze(ip, cb), freeze(ip, fn)
            got, err = vf_result(s, fn, ci, cb)
            env = {"inputs": inputs}
            env["locals"] = value_of(locs or {}, {**env, "resource": base})
            want = merge(base, over, env)
            later.check(err is None and same(got, want), "merge", APPLY, lambda: f"return {text_of(over)!r} over {base!r}: {err or got!r}, expected {want!r}")
            after = freeze(ip, ci), freeze(ip, cb), freeze(ip, fn)
            for n, a, b in zip(("inputs", "base", "function"), before, after):
                later.check(a == b, "pure", f"{APPLY}:{n}", lambda: f"evaluating return {text_of(over)!r} over {base!r} changes the {n}")
            if alternate:
                # another evaluation with other inputs and another base in between
                in2, base2 = ALTER(inputs), {"unrelated": {"k": 1}, **{k: v for n, (k, v) in enumerate(base.items()) if n % 2}}
                env2 = {"inputs": in2}
                try:
                    env2["locals"] = value_of(locs or {}, {**env2, "resource": base2})
                    want2 = merge(base2, over, env2)
                except (KeyError, TypeError):
                    want2 = None
                if want2 is not None:
                    got2, err2 = vf_result(s, fn, s.cel(in2), s.cel(base2))
                    later.check(err2 is None and same(got2, want2), "repeat", APPLY, lambda: f"return {text_of(over)!r} evaluated over {base2!r} after another evaluation: {err2 or got2!r}, expected {want2!r}")
            again, err2 = vf_result(s, fn, ci, cb)
            later.check(err2 is None and same(again, got), "repeat", APPLY, lambda: f"return {text_of(over)!r} over {base!r}: first {got!r}, then {err2 or again!r}")
    return body


INPUTS = {"one": 1, "m": {"a": {"x": 1, "y": [1, {"z": 2}]}, "b": "B"}, "l": [1, {"q": 2}], "t": True, "f": False, "s": "text", "e": {}, "n": None, "el": [], "deep": {"deep": {"deep": {"v": 1}}}}


OTHER = ALTER(INPUTS)


def I(path):
    def get(env):
        v = env["inputs"]
        for p in path.split("."):
            v = v[p]
        return v
    return E(f"=inputs.{path}", get)


def L(path):
    def get(env):
        v = env["locals"]
        for p in path.split("."):
            v = v[p]
        return v
    return E(f"=locals.{path}", get)


def R(path, default="none"):
    """The current resource's value, guarded."""
    def get(env):
        v = env["resource"]
        for p in path.split("."):
            if not isinstance(v, dict) or p not in v:
                return default
            v = v[p]
        return v
    parts = path.split(".")
    guard = " && ".join(f"has(resource.{'.'.join(parts[:i + 1])})" for i in range(len(parts)))
    return E(f"={guard} ? resource.{path} : '{default}'", get)


def ov(path, over):
    """resource.<path>.overlay({...}) as a computed leaf: an explicit merge onto the current value."""
    def get(env):
        v = env["resource"]
        for p in path.split("."):
            v = v[p]
        return merge(v, over, env)

    def cel(d):
        return "{" + ", ".join(f"'{k}': {cel(v) if isinstance(v, dict) else repr(v)}" for k, v in d.items()) + "}"
    return E(f"=resource.{path}.overlay({cel(over)})", get)


def computed_cases():
    base = {"a": {"x": "bx", "y": [9], "k": {"d": 1}}, "b": "bb", "c": [1, 2], "d": {}, "m": {"a": "ma", "q": {"r": 1}}}
    locs = {"v": I("m"), "t": E("=inputs.s + '!'", lambda env: env["inputs"]["s"] + "!"), "lit": {"k": [1, {"j": None}]}}
    leaves = [I("one"), I("l"), I("s"), I("e"), I("n"), I("el"), I("t"), L("t"), L("lit.k"), R("b"), R("a.x"), R("c"), R("a.missing"), E("=[inputs.one, inputs.l]", lambda env: [env["inputs"]["one"], env["inputs"]["l"]]),
              E("=inputs.one + 41", lambda env: env["inputs"]["one"] + 41), E("={}", lambda env: {}), E("=[]", lambda env: []), E("=null", lambda env: None)]
    maps = [I("m"), I("m.a"), I("deep"), L("v"), L("lit"), ov("a", {"x": "ox", "k": {"e": 2}}), ov("m", {"q": {"s": [1]}}), E("={'n': inputs.m, 'o': {'p': inputs.l}}", lambda env: {"n": env["inputs"]["m"], "o": {"p": env["inputs"]["l"]}})]
    out = []
    for x in leaves:
        for pos in ("a", "b", "c", "d", "new"):
            out.append({pos: x})
        out.append({"a": {"x": x, "k": {"d": x}, "fresh": {"g": x}}, "b": {"h": x}})
        out.append({"lst": [x, {"i": x}, [x]], "b": 5, "m": {"a": x}})
    for x in maps:      # a computed map where the base has no map to merge with
        for pos in ("b", "c", "new", "d"):
            out.append({pos: x})
        out.append({"a": {"x": x, "fresh": x}, "b": "after", "c": {"i": x}})
        out.append({"lst": [x, {"i": x}]})
    for p, x in (("a", maps[5]), ("m", maps[6])):
        out.append({p: x})
        out.append({"z": 1, p: x, "b": {"c": 1}})
    # several computed leaves in one overlay: each sees the same (un-overlaid) resource
    out.append({"b": "changed", "seen": R("b"), "a": {"x": "new", "old": R("a.x")}, "old2": R("a.x"), "c": {"was": R("c")}})
    out.append({"a": {"x": {"y": {"z": R("b")}}, "y": R("a.y")}, "b": R("a.x"), "m": {"a": R("m.a"), "q": {"r": R("m.q.r"), "n": L("t")}}, "t": I("one")})
    return [(o, locs, base, INPUTS) for o in out]


# ---------------------------------------------------------------- the target pipeline
API = {"apiVersion": "test.koreo.dev/v1", "kind": "Thing", "metadata": {"name": "thing-1", "namespace": "ns1"}}


def target_body(cases):
    """cases: (label, base kind, base doc, overlays, create overlay); an overlay is (how, doc, skip)"""
    def body(s, later):
        ip = s.ip
        for idx, (label, kind, base, overlays, create) in enumerate(cases):
            locs = {"v": I("m"), "t": E("=inputs.s + '!'", lambda env: env["inputs"]["s"] + "!")}
            over = {"locals": text_of(locs), "api": {"owned": True}}
            cached = []
            if kind == "template":
                s.cache("ResourceTemplate", f"tpl-{idx}", {"template": {"apiVersion": "test.koreo.dev/v1", "kind": "Thing", **copy.deepcopy(base)}})
                over["resourceTemplateRef"] = {"name": f"tpl-{idx}"}
                cached.append(("ResourceTemplate", f"tpl-{idx}"))
            else:
                over["resource"] = text_of(base)
            steps = []
            for n, (how, doc, skip) in enumerate(overlays):
                step = {}
                if skip is not None:
                    step["skipIf"] = skip[0]
                if how == "inline":
                    step["overlay"] = text_of(doc)
                else:
                    name = f"ovf-{idx}-{n}"
                    s.cache("ValueFunction", name, {"locals": {"t": "=inputs.w"}, "return": text_of(doc)})
                    cached.append(("ValueFunction", name))
                    step["overlayRef"] = {"kind": "ValueFunction", "name": name}
                    step["inputs"] = {**{k: f"=inputs.{k}" for k in INPUTS}, "w": f"w{n}"}
                steps.append(step)
            if steps:
                over["overlays"] = steps
            if create is not None:
                over["create"] = {"delay": 9, "overlay": text_of(create)}

            def expected(inputs):
                env = {"inputs": inputs}
                env["locals"] = value_of(locs, env)
                current = merge(value_of(base, env), API, env)
                for n, (how, doc, skip) in enumerate(overlays):
                    if skip is not None and skip[1](env):
                        continue
                    current = merge(current, doc, env if how == "inline" else {"inputs": {**inputs, "w": f"w{n}"}, "locals": {"t": f"w{n}"}})
                current = merge(current, API, env)
                if create is not None:
                    current = merge(current, create, env)
                current = merge(current, API, env)
                current["metadata"].pop("ownerReferences", None)
                if current["metadata"].get("annotations") == {}:
                    current["metadata"].pop("annotations")
                return current
            fn, _ = s.prepare("ResourceFunction", "rf", rf_spec(**over))

            def prepared():
                return [("function", freeze(ip, fn))] + [(c[0], freeze(ip, s.call("koreo.cache.get_resource_from_cache", resource_class=s.get(PREPARERS[c[0]][1]), cache_key=c[1]))) for c in cached]
            start = prepared()
            for turn, raw in (("first", INPUTS), ("other", OTHER), ("again", INPUTS)):
                inputs = s.cel(raw)

                before = freeze(ip, inputs)
                c = Cluster(ip)
                p = one_pass(s, fn, c, inputs)
                if p.error or p.ops != ["create"]:
                    later.check(False, "target", RFN, lambda: f"{label}: no object is created: {p!r} {s.out(p.out) if p.out is not None else ''}"[:400])
                    break
                sent = wire(ip, p.muts[0].data["payload"])
                md = sent.get("metadata", {})
                md.pop("ownerReferences", None)
                (md.get("annotations") or {}).pop(ANNOTATION, None)
                if md.get("annotations") == {}:
                    md.pop("annotations")
                want = expected(raw)
                rule = "target" if turn == "first" else "repeat"
                later.check(same(sent, want), rule, RFN, lambda: f"{label} ({turn} evaluation): {first_difference(want, sent)}")
                later.check(before == freeze(ip, inputs), "pure", f"{RFN}:inputs", lambda: f"{label}: evaluation changes the inputs")
            for (n, a), (_, b) in zip(start, prepared()):
                later.check(a == b, "pure", f"{RFN}:{n}", lambda: f"{label}: evaluation changes the {n}")
    return body


def first_difference(want, got, at=""):
    if isinstance(want, dict) and isinstance(got, dict):
        for k in want:
            if k not in got:
                return f"{at}.{k} is missing, expected {want[k]!r}"
            d = first_difference(want[k], got[k], f"{at}.{k}")
            if d:
                return d
        for k in got:
            if k not in want:
                return f"{at}.{k} = {got[k]!r} should not be there"
        return ""
    return "" if same(want, got) else f"{at} is {got!r}, expected {want!r}"


DOCS = {
    "p": {"spec": {"a": {"x": "p1", "n": {"o": "p2"}}, "b": ["p3"], "e": {}}, "metadata": {"labels": {"from": "p"}}},
    "q": {"spec": {"a": {"x": "q1", "y": "q2", "n": "q3"}, "c": {"d": {"f": "q4"}}, "b": []}, "extra": {"g": "q5"}},
    "r": {"spec": {"a": "r1", "c": {"d": {}}, "seen": R("spec.a.x"), "b": R("spec.b")}, "top": L("t"), "metadata": {"labels": {"r": I("s")}, "annotations": {"note": "r"}}},
    "u": {"spec": {"a": {"n": {"o": {"deep": I("one")}}, "x": R("spec.c.d.f")}, "c": [1, {"k": I("l")}]}},
    "v": {"spec": {"m2": I("m"), "a": {"z": I("m.a")}, "l": I("l"), "el": I("e")}, "metadata": {"labels": {"m": "v"}}},
    "w": {"spec": {}},
    "x": {"spec": {"m2": {"a": {"x": "over", "y": {"n": "x"}}, "fresh": R("spec.m2.b")}, "a": {"z": {"x": "over2", "new": {}}}, "l": {"now": "map"}}},
    "z": {"spec": R("spec.b"), "extra": I("n")},
    "md": {"metadata": ov("metadata", {"labels": {"o": "1"}}), "spec": {"k": "md"}},
}
BASE_DOCS = {
    "plain": {"spec": {"a": {"x": "base", "n": {"o": "base"}, "keep": 1}, "b": [1, 2], "c": {"d": {"f": "basef", "g": 1}}, "e": {"f": 1}}},
    "flat": {"spec": {"a": "scalar", "b": {"was": "map"}, "c": []}, "metadata": {"labels": {"base": "y"}, "annotations": {"n": "b"}}, "extra": "x"},
    "empty": {"spec": {}},
}
COMPUTED_BASE = {"spec": {"a": {"x": I("s"), "n": {"o": L("t")}}, "b": I("l"), "c": I("m"), "e": E("={'f': inputs.m}", lambda env: {"f": env["inputs"]["m"]})}, "metadata": {"labels": {"b": I("s")}}}
SKIPS = {"no": None, "true": ("=true", lambda env: True), "false": ("=false", lambda env: False), "on": ("=inputs.t", lambda env: env["inputs"]["t"]), "off": ("=inputs.f", lambda env: env["inputs"]["f"]),
         "expr": ("=inputs.one == 1 && locals.t == 'text!'", lambda env: env["inputs"]["one"] == 1), "nexpr": ("=!(locals.v.b == 'B')", lambda env: env["inputs"]["m"]["b"] != "B")}


def target_cases(tier):
    out = []
    docs = list(DOCS)
    bases = [(k, n, d) for n, d in BASE_DOCS.items() for k in ("inline", "template")] + [("inline", "computed", COMPUTED_BASE)]
    for kind, bn, base in bases:
        out.append((f"{kind} {bn} alone", kind, base, [], None))
        for d in docs:
            for how in ("inline", "ref"):
                out.append((f"{kind} {bn}, {how} {d}", kind, base, [(how, d_of(d, how), None)], None))
            out.append((f"{kind} {bn}, create {d}", kind, base, [], DOCS[d]))
    n = 0
    for a, b in itertools.product(docs, repeat=2):
        for ha, hb in (("inline", "inline"), ("inline", "ref"), ("ref", "inline"), ("ref", "ref")):
            n += 1
            if tier == "quick" and n % 2:
                continue
            kind, bn, base = bases[n % len(bases)]
            sk = list(SKIPS)
            sa, sb = SKIPS[sk[n % 7]], SKIPS[sk[(n // 7) % 7]]
            cr = DOCS[docs[n % len(docs)]] if n % 3 == 0 else None
            out.append((f"{kind} {bn}, {ha} {a} skip {sa and sa[0]}, {hb} {b} skip {sb and sb[0]}, create {docs[n % len(docs)] if cr else None}", kind, base, [(ha, d_of(a, ha), sa), (hb, d_of(b, hb), sb)], cr))
    k = 0
    for sa, sb, sc in itertools.product(SKIPS, repeat=3):
        k += 1
        if tier == "quick" and k % 3:
            continue
        a, b, c = docs[k % 9], docs[(k // 3) % 9], docs[(k // 11) % 9]
        kind, bn, base = bases[k % len(bases)]
        hs = [("inline", "ref")[(k >> i) & 1] for i in range(3)]
        out.append((f"{kind} {bn}, {hs[0]} {a} skip {sa}, {hs[1]} {b} skip {sb}, {hs[2]} {c} skip {sc}", kind, base, [(hs[0], d_of(a, hs[0]), SKIPS[sa]), (hs[1], d_of(b, hs[1]), SKIPS[sb]), (hs[2], d_of(c, hs[2]), SKIPS[sc])], None))
    for perm in [*itertools.permutations(["p", "q", "r", "u"]), *itertools.permutations(["v", "x", "u"])]:
        kind, bn, base = bases[len(out) % len(bases)]
        out.append((f"{kind} {bn}, inline/ref {' '.join(perm)}", kind, base, [(("inline", "ref")[i % 2], d_of(d, ("inline", "ref")[i % 2]), None) for i, d in enumerate(perm)], None))
    return [o for o in out if valid(o)]


def d_of(name, how):
    return DOCS[name]


def valid(case):
    """`md` needs a resource with metadata, always there."""
    return True


# ---------------------------------------------------------------- purity of the functions of the language
CALLS = [
    "inputs.m.overlay({'a': {'x': 2}})", "inputs.m.overlay(inputs.deep)", "inputs.deep.overlay({'deep': {'deep': {'w': 2}}}).overlay({'deep': inputs.m})", "[inputs.l, inputs.el, inputs.l].flatten()", "[[inputs.l], [inputs.l, [1]]].flatten()",
    "inputs.e.overlay(inputs.m)", "inputs.m.overlay(inputs.e)", "inputs.m.a.overlay(inputs.m).overlay(inputs.m.a)", "to_ref({'apiVersion': 'a/v1', 'kind': 'K', 'name': 'n', 'namespace': 'ns', 'external': 'x'})", "to_ref(inputs.ref)",
    "self_ref(inputs.obj)", "inputs.ref.to_ref()", "inputs.obj.self_ref()", "inputs.ref.group_ref()", "group_ref(inputs.ref)", "kindless_ref(inputs.ref)", "inputs.ref.kindless_ref()", "inputs.obj.config_connect_ready()",
    "config_connect_ready(inputs.obj)", "inputs.s.split('x')", "inputs.s.lower()", "inputs.s.strip('t')", "inputs.s.rstrip('t')", "inputs.s.replace({'t': 'T'})", "inputs.s.replace(inputs.rep)", "inputs.b64.b64decode()", "inputs.s.b64encode()",
    "to_json(inputs.m)", "inputs.m.to_json()", "from_json('{\"a\": [1]}')", "inputs.js.from_json()", "template_name('koreo', inputs.s)", "inputs.l.map(x, [x])", "inputs.m.map(k, inputs.m[k])", "inputs.l.filter(x, x == 1)",
    "lower(inputs.s)", "split(inputs.s, 'x')", "flatten([inputs.l])", "overlay(inputs.m, {'b': 1})", "inputs.l + inputs.l", "{'m': inputs.m, 'n': inputs.m.a}",
]
PURE_INPUTS = {**INPUTS, "ref": {"apiVersion": "a.b/v1", "kind": "K", "name": "n", "namespace": "ns"}, "obj": {"apiVersion": "a.b/v1", "kind": "K", "metadata": {"name": "n", "namespace": "ns", "uid": "u"},
               "status": {"conditions": [{"type": "Ready", "reason": "UpToDate", "status": "True"}]}}, "rep": {"t": "T"}, "b64": "dGV4dA==", "js": '{"a": {"b": [1]}}'}


def call_body(exprs):
    def body(s, later):
        ip = s.ip
        for e in exprs:
            try:
                fn, _ = s.prepare("ValueFunction", "vf", {"locals": {"x": f"={e}"}, "return": {"v": f"={e}", "l": "=locals.x", "w": {"n": f"={e}"}}})
            except PrepareFailed:
                continue
            ci = s.cel(PURE_INPUTS)
            before = freeze(ip, ci)
            r = s.call(VFN, location="loc", function=fn, inputs=ci)
            first = freeze(ip, r)
            later.check(freeze(ip, ci) == before, "pure", f"{VFN}:inputs", lambda: f"evaluating {e} changes its inputs")
            r2 = s.call(VFN, location="loc", function=fn, inputs=ci)
            later.check(s.kind(r2) == s.kind(r) and (s.kind(r) not in ("value", "Ok") or freeze(ip, r2) == first), "repeat", VFN, lambda: f"evaluating {e} twice: {s.out(r)} then {s.out(r2)}"[:400])
            if s.kind(r) in ("value", "Ok"):
                h = plain(ip, r)
                later.check(same(h["v"], h["l"]) and same(h["v"], h["w"]["n"]), "repeat", VFN, lambda: f"{e} differs within one function: {h!r}"[:400])
                later.check(freeze(ip, r) == first, "pure", f"{VFN}:result", lambda: f"a later evaluation of {e} changes an earlier result")
    return body


def chunks(items, n):
    for i in range(0, len(items), n):
        yield i, items[i:i + n]


def scenarios(chk, tier):
    trees = shapes(("a", "b"), 2)
    cases = []
    for n, sh in enumerate(trees):
        for how in (BASES if tier == "thorough" else (BASES[n % 7], BASES[(n // 7) % 7], "same")):
            cases.append((fill(sh, "o"), None, value_of(base_for(sh, how, Fill("b")), {"inputs": {"one": 1}}), {"one": 1}))
    for n, sh in enumerate(wide_and_deep()):
        for how in (BASES if tier == "thorough" else (BASES[n % 7], "partial")):
            cases.append((fill(sh, "o"), None, value_of(base_for(sh, how, Fill("b")), {"inputs": {"one": 1}}), {"one": 1}))
    for i, x in chunks(cases, 60):
        yield f"shapes:{i}", lambda rec, x=x, i=i: judged(rec, vf_cases(x), "merge", f"shapes {i}", construct=APPLY)
    pairs = list(itertools.product(range(len(trees)), repeat=2))
    step = 41 if tier == "quick" else 7
    pairs = pairs[::step]
    groups = []
    for i, x in chunks(pairs, 24):
        fo, fb = Fill("o"), Fill("b")
        over, base = {}, {}
        for n, (a, b) in enumerate(x):
            over[f"p{n}"] = fo(trees[a])
            base[f"p{n}"] = fb(trees[b])
        groups.append((over, None, base, {"one": 1}))
    for i, x in chunks(groups, 12):
        yield f"pairs:{i}", lambda rec, x=x, i=i: judged(rec, vf_cases(x), "merge", f"pairs {i}", construct=APPLY)
    for i, x in chunks(computed_cases(), 25):
        yield f"computed:{i}", lambda rec, x=x, i=i: judged(rec, vf_cases(x), "merge", f"computed {i}", construct=APPLY)
    for i, x in chunks(target_cases(tier), 14):
        yield f"target:{i}", lambda rec, x=x, i=i: judged(rec, target_body(x), "target", f"target {i}")
    for i, x in chunks(CALLS, 8):
        yield f"calls:{i}", lambda rec, x=x, i=i: judged(rec, call_body(x), "pure", f"calls {i}", construct=VFN)
