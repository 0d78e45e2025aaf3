"""C13  First false assertion decides the outcome; unevaluable ones fail safe."""
import itertools

from ..values import *
from ..scen import *
from ..lib import NotHost
from ..rf import judged, one_pass
from ..wf import mark, runner_text

EXPLANATION = (
    "The condition evaluator is interpreted as a decision table: every list of up to three assertions over all outcome kinds (ok, skip, depSkip, retry, permFail) under every truth assignment, longer lists (up to 20) under "
    "every single, pair, prefix and suffix of false assertions, and every position of an assertion or message that cannot be evaluated or is not a boolean, as pre- and postconditions of value and resource "
    "functions. The outcome, message and delay must be the first false assertion's; gating is a path rule: when the outcome is not to continue no expression of the body is evaluated and, for "
    "preconditions, no API operation is on the path.")
RULES = ["first-false: the first false assertion alone decides kind, message and delay",
         "continue: with none false, or an ok assertion first, evaluation continues to the normal result",
         "fail-safe: an assertion or message that cannot be evaluated or is not a boolean gives PermFail",
         "gated: otherwise the body is not evaluated",
         "untouched: failing preconditions reach no API operation"]
FLOOR = {"quick": 14000, "thorough": 30000}

VFN = "koreo.value_function.reconcile.reconcile_value_function"
RFN = "koreo.resource_function.reconcile.reconcile_resource_function"
EVP = "koreo.cel.evaluation.evaluate_predicates"
KINDS = ("ok", "skip", "depSkip", "retry", "permFail")
OUT = {"skip": "Skip", "depSkip": "DepSkip", "retry": "Retry", "permFail": "PermFail"}
BODY = mark("body")


def outcome_of(kind, message, delay):
    return {kind: {} if kind == "ok" else {"message": message, "delay": delay} if kind == "retry" else {"message": message}}


def predicate(kind, test, message, delay=9):
    return {"assert": test, **outcome_of(kind, message, delay)}


def standard(kinds, computed=False):
    return [predicate(k, f"=inputs.t[{i}]", f"='m{i} ' + inputs.who" if computed else f"m{i} text", 10 + i) for i, k in enumerate(kinds)]


def expect(kinds, truth, who=None):
    """(kind, message, delay) or None to continue."""
    for i, (k, t) in enumerate(zip(kinds, truth)):
        if not t:
            if k == "ok":
                return None
            return OUT[k], (f"m{i} {who}" if who else f"m{i} text"), (10 + i if k == "retry" else None)
    return None


def describe(s, r):
    k = s.kind(r)
    if k in ("value", "Ok"):
        return k
    try:
        return k, str(plain(s.ip, s.attr(r, "message"))), int(plain(s.ip, s.attr(r, "delay"))) if k == "Retry" else None
    except NotHost:
        return k, "<computed text>", None


def vf_spec(preds):
    return {"preconditions": preds, "locals": {"x": f"='{BODY}' + inputs.who"}, "return": {"v": "=locals.x", "w": f"='{BODY}' + 'w'"}}


VALUE = {"v": f"{BODY}me", "w": f"{BODY}w"}


def body_seen(events):
    return [e for e in events if e.kind == "evaluate" and BODY in runner_text(e)]


def run_vf(s, fn, inputs):
    n = len(s.ip.events)
    r = s.call(VFN, location="loc", function=fn, inputs=s.cel(inputs))
    ev = s.ip.events[n:]
    return r, body_seen(ev), [e for e in ev if e.kind == "api"]


def judge(s, later, label, r, body, api, want, where, value=VALUE, pre=True):
    got = describe(s, r)
    if want is None:
        ok = got in ("value", "Ok")
        later.check(ok and same(plain(s.ip, r), value), "continue", where, lambda: f"{label}: {s.out(r)}, expected evaluation to continue"[:400])
        return
    if want == "PermFail":
        later.check(got[0] == "PermFail", "fail-safe", where, lambda: f"{label}: {s.out(r)}, expected PermFail"[:400])
    else:
        later.check(got == want, "first-false", where, lambda: f"{label}: {got!r}, expected {want!r}")
    later.check(not body, "gated", where, lambda: f"{label}: {got!r} but {runner_text(body[0])!r} was evaluated")
    if pre:
        later.check(not api, "untouched", where, lambda: f"{label}: {got!r} but the path has {[e.data['op'] for e in api]}")


def table(lists, truths, computed=False):
    """VF preconditions: every kind list under every truth assignment."""
    def body(s, later):
        for kinds in lists:
            fn, _ = s.prepare("ValueFunction", "vf", vf_spec(standard(kinds, computed)))
            for t in truths(len(kinds)):
                r, b, api = run_vf(s, fn, {"t": list(t), "who": "me"})
                judge(s, later, f"{'/'.join(kinds)} with {list(t)}", r, b, api, expect(kinds, t, "me" if computed else None), EVP)
    return body


def all_truths(n):
    return itertools.product((True, False), repeat=n)


def long_truths(n):
    out = [[True] * n, [False] * n]
    for i in range(n):
        out += [[j != i for j in range(n)], [j < i for j in range(n)], [j > i for j in range(n)], [j == i for j in range(n)]]
    for i, j in itertools.combinations(range(0, n, 3), 2):
        out.append([k not in (i, j) for k in range(n)])
    return out


# expressions which are no boolean, or fail
BAD = {"zero": "=0", "one": "=1", "text": "='true'", "empty": "=''", "null": "=null", "list": "=[]", "list-true": "=[true]", "map": "={}", "map-x": "={'x': false}", "double": "=0.0", "double-one": "=1.5", "bytes": "=b'x'",
       "input-int": "=inputs.n", "input-zero": "=inputs.z", "input-text": "=inputs.who", "input-null": "=inputs.nil", "input-map": "=inputs.m", "input-list": "=inputs.el", "uint": "=0u", "conditional": "=inputs.f ? true : 0",
       "plain-text": "true-ish", "plain-number": "0", "plain-one": "1", "plain-empty": ""}
FAIL = {"absent": "=inputs.absent", "absent-deep": "=inputs.m.x.y", "not-absent": "=!inputs.absent", "compare": "=inputs.absent == 1", "index": "=inputs.el[3] == 1", "div": "=1 / inputs.z == 1", "type": "=inputs.who > 1", "name": "=nothing.x",
        "function": "=nofunction(inputs.who)", "method": "=inputs.who.nomethod()", "arith": "=inputs.who + 1 == 2", "and": "=inputs.yes && inputs.absent && inputs.yes", "all": "=inputs.l.all(x, x.absent)", "decode": "=inputs.who.b64decode()",
        "regex": "=inputs.who.matches('[')", "overload": "=-inputs.who == 1", "cond": "=inputs.absent ? true : false", "list-in": "=inputs.who in inputs.n"}
MSG = {"absent": "=inputs.absent", "div": "=1 / inputs.z", "type": "='x' + 1", "index": "=inputs.el[2]", "nested": "='a' + inputs.m.x.y", "name": "=nothing", "list": "=['a', inputs.absent]", "map": "={'a': inputs.absent}", "key": "=inputs.m['k2']",
       "function": "=inputs.who.nofn()"}
BASE_IN = {"who": "me", "n": 5, "z": 0, "nil": None, "m": {"k": 1}, "el": [], "f": False, "l": [1], "yes": True}


def bad_assertions(names, table_, n):
    def body(s, later):
        for name in names:
            for pos in range(n):
                for rot in range(5 if n < 3 else 2):
                    kinds = [KINDS[(pos + rot * 2 + i) % 5] for i in range(n)]
                    preds = standard(kinds)
                    preds[pos]["assert"] = table_[name]
                    try:
                        fn, _ = s.prepare("ValueFunction", "vf", vf_spec(preds))
                    except PrepareFailed:
                        continue
                    for t in all_truths(n):
                        if not t[pos]:
                            continue
                        r, b, api = run_vf(s, fn, {**BASE_IN, "t": list(t)})
                        judge(s, later, f"{'/'.join(kinds)} with {list(t)} and {table_[name]!r} at {pos}", r, b, api, "PermFail", EVP)
    return body


def bad_messages(names):
    def body(s, later):
        for name in names:
            for n in (1, 2, 3):
                for pos in range(n):
                    for kind in KINDS[1:]:
                        kinds = [kind if i == pos else KINDS[(i + pos) % 5] for i in range(n)]
                        preds = standard(kinds)
                        preds[pos][kind]["message"] = MSG[name]
                        try:
                            fn, _ = s.prepare("ValueFunction", "vf", vf_spec(preds))
                        except PrepareFailed:
                            continue
                        for t in all_truths(n):
                            if t[pos] or not all(t[:pos]):
                                continue        # only where this message would be the one returned
                            r, b, api = run_vf(s, fn, {**BASE_IN, "t": list(t)})
                            judge(s, later, f"{'/'.join(kinds)} with {list(t)} and message {MSG[name]!r} at {pos}", r, b, api, "PermFail", EVP)
    return body


MESSAGES = ["", "m", "a 'quoted' \"text\"", "line\nbreak", "back\\slash", "{x}", "%s", "caf\u00e9", "='a' + inputs.who", "=inputs.who", "=inputs.n > 1 ? 'big' : 'small'", "='n=' + string(inputs.n)", "=['a', 'b'][1]", "x" * 400]
TEXTS = {"='a' + inputs.who": "ame", "=inputs.who": "me", "=inputs.n > 1 ? 'big' : 'small'": "big", "='n=' + string(inputs.n)": "n=5", "=['a', 'b'][1]": "b"}
DELAYS = [0, 1, 5, 30, 59, 3600, 86400, 2 ** 31, 2 ** 40, 5.0, 30.0]


def details(s, later):
    for m in MESSAGES:
        for kind in KINDS[1:]:
            for lead in ((), ("ok",), ("skip", "retry")):
                preds = standard(list(lead)) + [predicate(kind, "=inputs.f", m, 77)]
                fn, _ = s.prepare("ValueFunction", "vf", vf_spec(preds))
                r, b, api = run_vf(s, fn, {**BASE_IN, "t": [True] * 3})
                judge(s, later, f"message {m!r}", r, b, api, (OUT[kind], TEXTS.get(m, m), 77 if kind == "retry" else None), EVP)
    for d in DELAYS:
        for n in (0, 2):
            preds = standard(["skip"] * n) + [predicate("retry", "=inputs.f", "m", d)] + [predicate("retry", "=inputs.f", "other", 3)]
            fn, _ = s.prepare("ValueFunction", "vf", vf_spec(preds))
            r, b, api = run_vf(s, fn, {**BASE_IN, "t": [True] * 3})
            judge(s, later, f"delay {d!r}", r, b, api, ("Retry", "m", int(d)), EVP)


EXPRS = [("=inputs.n == 5", True), ("=inputs.n != 5", False), ("=!inputs.f", True), ("=inputs.who == 'me' && inputs.yes", True), ("=inputs.f || inputs.n < 3", False), ("=has(inputs.absent)", False), ("=has(inputs.m.k)", True), ("=inputs.l.all(x, x > 0)", True),
         ("=inputs.l.exists(x, x > 3)", False), ("='k' in inputs.m", True), ("=inputs.n in [1, 2]", False), ("=inputs.f ? inputs.yes : inputs.f", False), ("=size(inputs.l) == 1", True), ("=inputs.who.startsWith('x')", False), ("=inputs.who.matches('^m.$')", True),
         ("=true", True), ("=false", False), ("=inputs.m == {'k': 1}", True), ("=type(inputs.n) == string", False), ("=inputs.f || inputs.absent || inputs.yes", True), ("=inputs.absent && inputs.f", False), ("=inputs.nil == null", True),
         ("=(inputs.n > 1 && !inputs.f) || inputs.z == 1", True), ("=inputs.el.exists(x, x)", False), ("=[1, 2].exists_one(x, x == inputs.z)", False)]


def real_expressions(firsts):
    def body(s, later):
        for (a, ta), (b, tb) in itertools.product(firsts, EXPRS):
            ks = (KINDS[len(a) % 5], KINDS[1 + len(b) % 4])
            fn, _ = s.prepare("ValueFunction", "vf", vf_spec([predicate(ks[0], a, "m0 text", 10), predicate(ks[1], b, "m1 text", 11)]))
            r, bd, api = run_vf(s, fn, {**BASE_IN, "t": []})
            judge(s, later, f"{ks[0]} {a} / {ks[1]} {b}", r, bd, api, expect(ks, (ta, tb)), EVP)
    return body


# ------------------------------------------------------------------ resource functions
def rf_for(s, pre=None, post=None, **over):
    spec = rf_spec(locals={"x": f"='{BODY}'"}, resource={"spec": {"a": 1, "b": f"='{BODY}' + 'r'"}}, **over)
    spec["apiConfig"]["name"] = f"='thing-' + '1' + ('{BODY}' == '' ? 'x' : '')"
    spec["create"] = {"delay": 9, "overlay": {"spec": {"c": f"='{BODY}'"}}}
    spec["overlays"] = [{"overlay": {"spec": {"o": f"='{BODY}' + 'o'"}}}]
    spec["return"] = {"v": f"='{BODY}' + 'ret' + string(resource.spec.a)"}
    if pre is not None:
        spec["preconditions"] = pre
    if post is not None:
        spec["postconditions"] = post
    fn, _ = s.prepare("ResourceFunction", "rf", spec)
    return fn


def run_rf(s, fn, cluster, inputs):
    n = len(s.ip.events)
    p = one_pass(s, fn, cluster, s.cel(inputs))
    return p, [e for e in s.ip.events[n:]]


def rf_table(lists, truths):
    def body(s, later):
        for kinds in lists:
            fn = rf_for(s, pre=standard(kinds))
            for t in truths(len(kinds)):
                for live in (False, True):
                    cluster = Cluster(s.ip)
                    if live:
                        run_rf(s, rf_for(s), cluster, {**BASE_IN, "t": []})
                    want = expect(kinds, t)
                    p, ev = run_rf(s, fn, cluster, {**BASE_IN, "t": list(t)})
                    label = f"resource function preconditions {'/'.join(kinds)} with {list(t)}{' and a live object' if live else ''}"
                    api = [e for e in ev if e.kind == "api"]
                    if p.error:
                        later.check(False, "fail-safe", RFN, lambda: f"{label}: raises {p.error}")
                    elif want is None:
                        if live:
                            later.check(s.kind(p.out) == "value" and plain(s.ip, p.out) == {"v": f"{BODY}ret1"}, "continue", RFN, lambda: f"{label}: {s.out(p.out)}")
                        else:
                            later.check(p.ops == ["create"], "continue", RFN, lambda: f"{label}: {p!r} {s.out(p.out)}, expected the object to be created")
                    else:
                        judge(s, later, label, p.out, body_seen(ev), api, want, RFN)
    return body


def rf_bad(items, where):
    """Failing or non-boolean assertions as pre- or postconditions of a resource function."""
    def body(s, later):
        cluster = Cluster(s.ip)
        run_rf(s, rf_for(s), cluster, {**BASE_IN, "t": []})
        for text in items:
            for pos in (0, 1):
                for kinds in (("skip", "retry"), ("ok", "ok")):
                    preds = standard(kinds)
                    preds[pos]["assert"] = text
                    try:
                        fn = rf_for(s, **{where: preds})
                    except PrepareFailed:
                        continue
                    for other in (True, False):
                        p, ev = run_rf(s, fn, cluster, {**BASE_IN, "t": [other, other]})
                        label = f"resource function {where}conditions {'/'.join(kinds)}, {text!r} at {pos}, the other {other}"
                        seen = body_seen(ev) if where == "pre" else [e for e in ev if e.kind == "evaluate" and BODY + "' + 'ret" in runner_text(e)]
                        if p.error:
                            later.check(False, "fail-safe", RFN, lambda: f"{label}: raises {p.error}")
                        else:
                            judge(s, later, label, p.out, seen, [e for e in ev if e.kind == "api"], "PermFail", RFN, pre=where == "pre")
    return body


def post_table(lists, truths):
    def body(s, later):
        cluster = Cluster(s.ip)
        run_rf(s, rf_for(s), cluster, {**BASE_IN, "t": []})
        for kinds in lists:
            preds = standard(kinds)
            for i, p in enumerate(preds):
                if i % 2:
                    p["assert"] = f"=inputs.t[{i}] && resource.spec.a == 1 && locals.x != ''"
            fn = rf_for(s, post=preds)
            for t in truths(len(kinds)):
                want = expect(kinds, t)
                p, ev = run_rf(s, fn, cluster, {**BASE_IN, "t": list(t)})
                label = f"resource function postconditions {'/'.join(kinds)} with {list(t)}"
                ret = [e for e in ev if e.kind == "evaluate" and BODY + "' + 'ret" in runner_text(e)]
                if p.error:
                    later.check(False, "fail-safe", RFN, lambda: f"{label}: raises {p.error}")
                else:
                    judge(s, later, label, p.out, ret, [], want, RFN, value={"v": f"{BODY}ret1"}, pre=False)
            # postconditions wait for the object: not ready means its own retry, not a postcondition outcome
            fresh = Cluster(s.ip)
            p, ev = run_rf(s, fn, fresh, {**BASE_IN, "t": [False] * len(kinds)})
            later.check(not p.error and p.ops == ["create"], "continue", RFN, lambda: f"postconditions {'/'.join(kinds)} keep the object from being created: {p!r}")
    return body


def chunks(items, n):
    items = list(items)
    for i in range(0, len(items), n):
        yield i, items[i:i + n]


def scenarios(chk, tier):
    lists = [k for n in (1, 2, 3) for k in itertools.product(KINDS, repeat=n)]
    for i, x in chunks(lists, 20):
        yield f"vf:{i}", lambda rec, x=x, i=i: judged(rec, table(x, all_truths), "fail-safe", f"vf {i}", construct=EVP)
    for i, x in chunks(lists[:30], 15):
        yield f"vf-computed:{i}", lambda rec, x=x, i=i: judged(rec, table(x, all_truths, True), "fail-safe", f"vf computed {i}", construct=EVP)
    four = list(itertools.product(KINDS, repeat=4))
    if tier == "quick":
        four = four[::6]
    for i, x in chunks(four, 20):
        yield f"vf4:{i}", lambda rec, x=x, i=i: judged(rec, table(x, all_truths), "fail-safe", f"vf four {i}", construct=EVP)
    longs = [[KINDS[(i * a + b) % 5] for i in range(n)] for n in ((20, 7) if tier == "quick" else (20, 19, 12, 7)) for a, b in ((0, 1), (1, 0), (2, 3), (3, 1), (0, 3), (0, 2), (0, 4))]
    for i, x in chunks(longs, 1):
        yield f"vf-long:{i}", lambda rec, x=x, i=i: judged(rec, table(x, long_truths), "fail-safe", f"vf long {i}", construct=EVP)
    for n in (1, 2, 3):
        for kind, t in (("bad", BAD), ("fail", FAIL)):
            for i, x in chunks(t, 6 if n < 3 else 3):
                yield f"{kind}{n}:{i}", lambda rec, x=x, t=t, n=n: judged(rec, bad_assertions(x, t, n), "fail-safe", f"assertions {x}", construct=EVP)
    for i, x in chunks(MSG, 2):
        yield f"messages:{i}", lambda rec, x=x: judged(rec, bad_messages(x), "fail-safe", f"messages {x}", construct=EVP)
    yield "details", lambda rec: judged(rec, details, "first-false", "details", construct=EVP)
    for i, x in chunks(EXPRS, 5):
        yield f"expressions:{i}", lambda rec, x=x, i=i: judged(rec, real_expressions(x), "first-false", f"expressions {i}", construct=EVP)
    rl = [k for n in (1, 2) for k in itertools.product(KINDS, repeat=n)] + list(itertools.product(KINDS, repeat=3))[::4 if tier == "quick" else 1]
    for i, x in chunks(rl, 6):
        yield f"rf-pre:{i}", lambda rec, x=x, i=i: judged(rec, rf_table(x, all_truths), "fail-safe", f"rf pre {i}")
        yield f"rf-post:{i}", lambda rec, x=x, i=i: judged(rec, post_table(x, all_truths), "fail-safe", f"rf post {i}")
    items = list(BAD.values()) + list(FAIL.values())
    for where in ("pre", "post"):
        for i, x in chunks(items, 7):
            yield f"rf-bad-{where}:{i}", lambda rec, x=x, where=where: judged(rec, rf_bad(x, where), "fail-safe", f"rf {where} bad")
