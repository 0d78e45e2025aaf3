"""C14  Static reference analysis finds every named dependency."""
import itertools

from ..values import *
from ..scen import *
from ..rf import judged
from ..wf import mark, runner_text, run_workflow

EXPLANATION = (
    "The reference extractor and the preparers are interpreted over a corpus generated from the expression grammar: every spelling of a reference (member, index with every literal form and escape, "
    "parenthesised, absolute, deep, computed sub-index) x every syntactic context (operators, conditionals, calls, method receivers and arguments, macro ranges and bodies, has(), literals, keys, "
    "message fields) and compositions of contexts x every expression-bearing field of a step (skipIf, inputs at any depth, forEach.itemIn, state, refSwitch.switchOn) and every kind of Logic. The "
    "dependency set of the prepared step must contain each named label; the same expression naming a later, unknown or own label must leave the Workflow not ready, and reconciling such a Workflow must "
    "evaluate nothing. Watch rule: the resources reported by prepare_* must contain every Function or Workflow named anywhere in the definition, whatever else is wrong with it and whatever state "
    "the named resource is in; end to end, the cached definition must be prepared again when that resource appears, changes or disappears.")
RULES = ["recorded: every statically named prior step is in the step's dependency set and the Workflow is ready",
         "delivered: the expression sees the value of the step it names",
         "rejected: a step naming a later, unknown or its own label leaves the Workflow not ready",
         "not-run: a Workflow which is not ready evaluates no expression and does no API operation",
         "watched: every named Function or Workflow (and resolved ResourceTemplate of a FunctionTest) is reported as watched",
         "reprepared: the definition is prepared again when a watched resource appears, changes or disappears"]
FLOOR = {"quick": 12000, "thorough": 70000}

WFP = "koreo.workflow.prepare.prepare_workflow"
RFP = "koreo.resource_function.prepare.prepare_resource_function"
FTP = "koreo.function_test.prepare.prepare_function_test"
EXT = "koreo.cel.structure_extractor.extract_argument_structure"


def esc(form):
    return lambda l: {"x": f"\\x{ord(l[0]):02x}{l[1:]}", "X": f"{l[:-1]}\\x{ord(l[-1]):02X}", "u": f"\\u{ord(l[0]):04x}{l[1:]}", "U": f"\\U{ord(l[0]):08x}{l[1:]}", "o": f"\\{ord(l[0]):03o}{l[1:]}",
                      "all": "".join(f"\\x{ord(c):02x}" for c in l)}[form]


# spelling of a reference to the step with label l (all of them name exactly that step)
REFS = {
    "whole": lambda l: f"steps.{l}", "member": lambda l: f"steps.{l}.v", "deep": lambda l: f"steps.{l}.m.k.j.i", "item": lambda l: f"steps.{l}.l[0]", "item-member": lambda l: f"steps.{l}.l[0].k[1]",
    "index": lambda l: f"steps['{l}']", "index2": lambda l: f'steps["{l}"]', "index-member": lambda l: f"steps['{l}'].v", "index-index": lambda l: f"steps['{l}']['v']", "member-index": lambda l: f"steps.{l}['v']", "index-deep": lambda l: f"steps['{l}'].m['k'].j[0]",
    "triple": lambda l: f"steps['''{l}''']", "triple2": lambda l: f'steps["""{l}"""].v', "raw": lambda l: f"steps[r'{l}']", "raw2": lambda l: f'steps[R"{l}"].v', "raw-triple": lambda l: f"steps[r'''{l}''']",
    "hex": lambda l: f"steps['{esc('x')(l)}']", "hex-end": lambda l: f"steps['{esc('X')(l)}'].v", "unicode": lambda l: f"steps['{esc('u')(l)}']", "octal": lambda l: f"steps[\"{esc('o')(l)}\"]", "hex-all": lambda l: f"steps['{esc('all')(l)}']",
    "unicode8": lambda l: f"steps['{esc('U')(l)}'].v",
    "paren-root": lambda l: f"(steps).{l}", "paren-root-index": lambda l: f"(steps)['{l}']", "paren-member": lambda l: f"(steps.{l}).v", "paren-index": lambda l: f"(steps['{l}']).v", "paren-key": lambda l: f"steps[('{l}')]", "parens": lambda l: f"(((steps).{l}).m).k",
    "paren-all": lambda l: f"((steps)[('{l}')])", "absolute": lambda l: f".steps.{l}", "absolute-index": lambda l: f".steps['{l}'].v", "absolute-paren": lambda l: f"(.steps).{l}.v",
    "space": lambda l: f"steps . {l} . v", "space-index": lambda l: f"steps [ '{l}' ] . v", "newline": lambda l: f"steps\n.{l}\n.v", "comment": lambda l: f"steps // the step\n.{l}", "tab": lambda l: f"steps\t['{l}']",
    "dynamic-member": lambda l: f"steps.{l}[inputs.key]", "dynamic-paren": lambda l: f"(steps.{l})[inputs.key + 'x']", "negative": lambda l: f"steps.{l}.l[-1]", "computed": lambda l: f"steps.{l}.l[1 + 1]", "cond-index": lambda l: f"steps.{l}.l[true ? 0 : 1]",
    "method": lambda l: f"steps.{l}.v.size()", "method-index": lambda l: f"steps['{l}'].v.split(',')[0]", "method-chain": lambda l: f"steps.{l}.v.lower().split('-').size()", "method-own": lambda l: f"steps.{l}.self_ref().name",
    "macro-on": lambda l: f"steps.{l}.l.map(x, x.k)", "macro-on-index": lambda l: f"steps['{l}'].l.filter(x, x)[0].k", "macro-exists": lambda l: f"steps.{l}.l.exists(x, x == 1)",
    "bool-key": lambda l: f"steps.{l}[true]", "number-key": lambda l: f"steps.{l}[1.5]", "null-key": lambda l: f"steps.{l}[null]", "bytes-key": lambda l: f"steps.{l}[b'x']", "list-key": lambda l: f"steps.{l}[[1][0]]",
    "index-chain": lambda l: f"steps.{l}['a']['b']['c']['d']", "empty-key": lambda l: f"steps.{l}['']", "dotted-key": lambda l: f"steps.{l}['a.b/c'].d", "bracket-key": lambda l: f"steps['{l}']['x[0]']", "keyword-ish": lambda l: f"steps.{l}.steps.inputs.parent",
}

# contexts: @ is the reference
CONTEXTS = [
    "@", "(@)", "((@))", "@ + 1", "1 + @", "@ - 1", "1 - @", "@ * 2", "2 * @", "@ / 2", "2 / @", "@ % 2", "2 % @", "-@", "!@", "- -@", "!!@", "@ == 1", "1 == @", "@ != 1", "@ < 1", "1 < @", "@ <= 1", "@ > 1", "1 >= @", "@ in [1]", "1 in @",
    "@ && true", "true && @", "@ || false", "false || @", "@ ? 1 : 2", "true ? @ : 2", "false ? 1 : @", "true ? (false ? 1 : @) : 2", "true ? 1 : false ? 2 : @", "@ == 1 ? 'a' : 'b'", "a || b || @", "a && b && @ && c", "1 + 2 + @ + 3",
    "size(@)", "string(@)", "type(@)", "int(@)", "dyn(@)", "matches('x', @)", "lower(@)", "nosuch(@)", "nosuch(1, @, 2)", "size([@])", "size(size(@))",
    "'a'.split(@)", "'a'.replace('a', @)", "inputs.x.split(@)", "inputs.x.overlay(@)", "inputs.x.overlay({'a': @})", "(@).overlay({'a': 1})", "@.overlay(@)", "inputs.a.b.c(@).d", "inputs.a.foo().bar(@).baz", "'a'.b().c(1, @)", "x(@)[0]", "x(@).y.z", "inputs.f(@)['k']",
    "[@]", "[1, @]", "[[1, [@]]]", "[1, 2, 3, @, 4]", "[@][0]", "[@, 1][0].k", "[@].map(x, x)", "{'a': @}", "{'a': {'b': @}}", "{'a': [@]}", "{@: 1}", "{'a': 1, @: 2}", "{'a': @}.a", "{'a': @}['a'].b", "{'a': 1, 'b': @, 'c': 3}", "[{'a': [{'b': @}]}]", "{'k': 1}[@]", "[1, 2][@]",
    "inputs.m[@]", "inputs.m[@].x", "inputs.m[@ + 'x']", "inputs.m['a'][@]", "inputs.l[@][0]", "steps[@]", "parent.m[@].n", "inputs[@]", "inputs[inputs.a[@]]",
    "has(@.x)", "has(@.x.y)", "!has(@.x) || true", "has(@.x) ? @.x : ''", "has({'a': @}.a)", "has(inputs.m[@].x)",
    "[1].map(x, @)", "[1].map(x, x + @)", "[1].map(x, {'a': @})", "[1].map(x, {'a': x, 'b': [@]})", "[1].filter(x, @)", "[1].filter(x, x == @)", "[1].all(x, @ == x)", "[1].exists(x, x == @)", "[1].exists_one(x, @)", "inputs.l.map(x, @)", "inputs.l.filter(x, x.y == @).size()",
    "inputs.l.map(x, inputs.m.map(y, @))", "inputs.l.map(x, x.l.filter(y, y == @)).flatten()", "[@].all(x, true)", "[[@]].flatten()", "[1].map(x, [2].map(y, [3].map(z, @)))", "inputs.l.map(x, @)[0].name", "[1].map(x, @)[0]", "(@).map(x, x)", "({'a': @}).map(k, k)",
    "{'a': @}.map(k, k)", "[inputs.a, @].filter(x, x != null)[0]", "inputs.l.map(step, step.x + @)", "[1].map(inputs, @)", "[1].map(steps2, @)", "[1].map(i, @)", "[{'x': 1}].map(steps2, steps2.x == @)", "inputs.l.map(stepsize, stepsize.y.z == @)", "inputs.l.filter(steps_x, steps_x['y'] == @)", "nosteps.x + @", "inputs.steps.x + @", "parent.steps['y'] + @", "inputs.l.map(x, x.steps.y + @)", "inputs.l.exists(x, x.name == 'a' && x.value == @)",
    "Msg{f: @}", "a.b.Msg{f: 1, g: @}", "Msg{f: [@]}.g", "[Msg{f: {'a': @}}]", "'a' + 'b' + string(@)", "('x' + @)", "(1 == 1) && (@ == 2) || (3 == 3)", "\"steps.nothere\" + @", "r'steps.nothere' + @", "'''\nsteps.nothere ''' + @", "1 // steps.nothere\n + @", "b'steps.nothere' == @",
    "[1, 2][0] + @", "inputs[inputs.k].z == @", "[inputs.a][0].b + @", "{'a': 1}.a + @", "'abc'.size() + @", "(1 + 2).foo + @", "inputs.a.b() + @", "nosuch().x + @", "nosuch(1)[0] + @", "(true ? inputs : parent).x + @", "-inputs.x + @", "(!inputs.x).y + @", "inputs.a['b'].c['d'][0].e + @",
    "type(1).x + @", "[].x + @", "{}.x + @", "null.x + @", "(1).x + @", "'s'.x + @", "'s'[0] + @", "(inputs.l.map(x, x))[0] + @", "(inputs.f(1)).x + @", "inputs.f(1).g(2).h[3] + @", "inputs['a']['b'][inputs.c]['d'] + @", "[[1]][0][0] + @", "{'a': {'b': 1}}['a']['b'] + @",
    "inputs[1].x + @", "inputs[1.5] + @", "inputs[true] + @", "inputs[null] + @", "inputs[b'a'] + @", "inputs[1u] + @", "inputs[-1] + @", "inputs[!a] + @", "inputs[''] + @", "inputs[a][b][c] + @", "(inputs)[(a)] + @", "inputs[[1]] + @", "inputs[{}] + @", "inputs[a ? b : c] + @", "inputs[x(1)] + @", "inputs[x.y(1)] + @",
    "a + @", "true.x == @", "0x1F + @", "1e3 + @", "1u + @", "'\\u00e9' + @", "Msg{}.x == @", "inputs.l.map(x, x).filter(y, y)[0].z + @", "(inputs.a).b.c + @", "((inputs)).a['b'] + @",
]
SMALL = ["@", "1 + @", "true ? @ : 2", "[@]", "{'a': @}", "size(@)", "'a'.split(@)", "[1].map(x, @)", "inputs.m[@]", "has(@.x)", "!@", "(@)", "true && @", "{@: 1}", "{'a': @}.a", "inputs.l.filter(x, x.y == @).size()", "inputs.a.foo(@).baz", "@ in [1]"]

# ------------------------------------------------------------------ placing an expression into a step
def in_inputs(e): return {"inputs": {"x": e}}
def in_inputs_deep(e): return {"inputs": {"a": {"b": [1, {"c": e}], "d": "plain"}, "z": 1}}
def in_inputs_list(e): return {"inputs": {"a": ["x", [e]], "b": "b"}}
def in_skip(e): return {"skipIf": e}
def in_foreach(e): return {"forEach": {"itemIn": e, "inputKey": "item"}}
def in_state(e): return {"state": {"x": e}}
def in_state_deep(e): return {"state": {"a": {"b": [e]}}}
def in_foreach_inputs(e): return {"forEach": {"itemIn": "=[1, 2]", "inputKey": "item"}, "inputs": {"x": e}}
def in_foreach_state(e): return {"forEach": {"itemIn": "=[1, 2]", "inputKey": "item"}, "state": {"x": e}}
def in_foreach_skip(e): return {"forEach": {"itemIn": "=[1, 2]", "inputKey": "item"}, "skipIf": e}


def switch(e="='one'", **more):
    return {"refSwitch": {"switchOn": e, "cases": [{"case": "one", "kind": "ValueFunction", "name": "vf-x", "default": True}, {"case": "two", "kind": "ResourceFunction", "name": "rf-x"}]}, **more}


def in_switch(e): return switch(e)
def in_switch_inputs(e): return switch(inputs={"x": e})
def in_switch_state(e): return switch(state={"x": e})
def in_switch_skip(e): return switch(skipIf=e)
def in_switch_each(e): return switch(e, forEach={"itemIn": "=[1]", "inputKey": "item"})
def in_rf(e): return {"ref": {"kind": "ResourceFunction", "name": "rf-x"}, "inputs": {"x": e}}
def in_wf(e): return {"ref": {"kind": "Workflow", "name": "wf-x"}, "inputs": {"x": e}}
def in_wf_state(e): return {"ref": {"kind": "Workflow", "name": "wf-x"}, "state": {"x": e}}


FIELDS = {f.__name__[3:]: f for f in (in_inputs, in_inputs_deep, in_inputs_list, in_skip, in_foreach, in_state, in_state_deep, in_foreach_inputs, in_foreach_state, in_foreach_skip, in_switch, in_switch_inputs, in_switch_state,
                                      in_switch_skip, in_switch_each, in_rf, in_wf, in_wf_state)}
VFREF = {"ref": {"kind": "ValueFunction", "name": "vf-x"}}


def step(label, more):
    out = {"label": label, **more}
    if "ref" not in out and "refSwitch" not in out:
        out.update(VFREF)
    return out


def functions(s):
    s.cache("ValueFunction", "vf-x", {"return": {"v": 1}})
    s.cache("ResourceFunction", "rf-x", rf_spec(**{"return": {"v": "=resource.spec.a"}}))
    s.cache("Workflow", "wf-x", {"steps": [{"label": "sub_one", **VFREF}]})


def ready(s, wf):
    return s.kind(s.attr(wf, "steps_ready")) in ("Ok", "value")


def deps(s, wf, label):
    ip = s.ip
    for st in ip.listof(s.attr(wf, "steps")):
        if str(ip.force(s.attr(st, "label"))) == label:
            keys = s.attr(st, "dynamic_input_keys")
            return None if keys is None else {ip.force(k) for k in ip.listof(keys)}
    return None


def judge_recorded(s, later, specs, label, want, what, construct=EXT):
    """Prepare and require the dependencies."""
    try:
        wf, _ = s.prepare("Workflow", "wk", {"steps": specs})
    except PrepareFailed as e:
        later.check(False, "recorded", construct, lambda: f"{what}: not prepared: {str(e)[:200]}")
        return None
    have = deps(s, wf, label)
    ok = have is not None and want <= have
    later.check(ok, "recorded", construct, lambda: f"{what}: dependencies {sorted(map(str, have)) if have is not None else 'none (error step)'}, expected {sorted(want)}; {s.out(s.attr(wf, 'steps_ready'))}"[:420])
    later.check(ready(s, wf), "recorded", construct, lambda: f"{what}: not ready: {s.out(s.attr(wf, 'steps_ready'))}"[:420])
    return wf


def judge_rejected(s, later, specs, what, construct=WFP):
    try:
        wf, _ = s.prepare("Workflow", "wk", {"steps": specs})
    except PrepareFailed:
        later.check(True, "rejected", construct, None)
        return
    r = ready(s, wf)
    later.check(not r, "rejected", construct, lambda: f"{what}: the Workflow is ready")
    n = len(s.ip.events)
    cluster = Cluster(s.ip)
    out = run_workflow(s, wf, cluster, {"o": "Ok"})
    ev = [e for e in s.ip.events[n:] if e.kind in ("evaluate", "api")]
    later.check(not ev, "not-run", construct, lambda: f"{what}: not ready, yet reconcile runs {runner_text(ev[0]) if ev[0].kind == 'evaluate' else ev[0].data['op']!r}"[:400])
    k = s.kind(s.attr(out, "result"))
    later.check(k in ("Retry", "PermFail"), "not-run", construct, lambda: f"{what}: reconcile reports {s.out(s.attr(out, 'result'))}"[:400])


LABELS = [f"lab_{i:02d}" for i in range(17)]


def packed(field, cases):
    """Up to 17 expressions in the fields of one step, each naming another prior step."""
    def body(s, later):
        functions(s)
        for base in range(0, len(cases), len(LABELS)):
            group = cases[base:base + len(LABELS)]
            pairs = [(ctx.replace("@", REFS[ref](l)), l, ctx, ref) for (ctx, ref), l in zip(group, LABELS)]
            prior = [step(l, {}) for l in LABELS[:len(pairs)]]
            if field in ("inputs", "state"):
                exprs = {f"k{i}": "=" + e if i % 2 else {"n": ["=" + e]} for i, (e, *_) in enumerate(pairs)}
                if field == "state":
                    parts = [{k: exprs[k] for k in list(exprs)[i:i + 9]} for i in range(0, len(exprs), 9)]
                    for j, part in enumerate(parts):
                        want = {p[1] for p in pairs[j * 9:j * 9 + 9]}
                        judge_recorded(s, later, prior + [step("the_step", {"state": part})], "the_step", want, f"state of {[p[0] for p in pairs[j * 9:j * 9 + 9]]}")
                    continue
                wf, _ = s.prepare("Workflow", "wk", {"steps": prior + [step("the_step", {"inputs": exprs})]})
                have = deps(s, wf, "the_step")
                for e, l, ctx, ref in pairs:
                    later.check(have is not None and l in have, "recorded", EXT,
                                lambda: f"{field}: {e!r}: {l} not in the dependencies {sorted(map(str, have)) if have is not None else s.out(s.attr(wf, 'steps_ready'))}"[:420])
                later.check(ready(s, wf), "recorded", EXT, lambda: f"{field}: not ready with {[p[0] for p in pairs]}: {s.out(s.attr(wf, 'steps_ready'))}"[:420])
            else:
                for e, l, ctx, ref in pairs:
                    judge_recorded(s, later, prior + [step("the_step", FIELDS[field]("=" + e))], "the_step", {l}, f"{field}: {e!r}")
    return body


def rejections(field, cases):
    """The same expressions naming a later, an unknown and the own label."""
    def body(s, later):
        functions(s)
        for i, (ctx, ref) in enumerate(cases):
            for which, l in (("later", "ccc_later"), ("own", "bbb_own"), ("unknown", "zzz_unknown"), ("near-miss", "aaa_firs"), ("case", "AAA_first")):
                if which in ("near-miss", "case") and i % 4:
                    continue
                e = "=" + ctx.replace("@", REFS[ref](l))
                specs = [step("aaa_first", {}), step("bbb_own", FIELDS[field](e)), step("ccc_later", {})]
                judge_rejected(s, later, specs, f"{field} of the second step names a step which is {which}: {e!r}")
    return body


ODD_LABELS = ["steps", "inputs", "parent", "map", "size", "filter", "all", "has", "value", "_under", "a_b_c", "Upper", "x2y", "string", "type", "exists", "name", "a" * 45, "lab_0", "lab_01", "lab_001", "stepsteps", "resource", "locals"]


def odd_labels(labels):
    def body(s, later):
        functions(s)
        for l in labels:
            for ref in ("whole", "member", "index", "index-member", "paren-member", "method", "macro-on", "absolute"):
                for field in ("inputs", "skip", "foreach", "state", "switch"):
                    e = "=" + REFS[ref](l)
                    judge_recorded(s, later, [step(l, {}), step("other_step", {}), step("the_step", FIELDS[field](e))], "the_step", {l}, f"{field}: {e!r}")
    return body


def numeral_labels(s, later):
    functions(s)
    for l in ("123", "1st_step", "007", "true", "null", "in_", "for", "if_", "as_x"):
        for ref in ("index", "index-member", "index2", "triple", "paren-key"):
            e = "=" + REFS[ref](l)
            judge_recorded(s, later, [step(l, {}), step("the_step", FIELDS["inputs"](e))], "the_step", {l}, f"index of {l!r}")


def several(which):
    """More than one reference, spread over the fields and inside one expression."""
    def body(s, later):
        functions(s)
        names = LABELS[:8]
        prior = [step(l, {}) for l in names]
        forms = list(REFS)
        for i in which:
            r = [REFS[forms[(i + j * 7) % len(forms)]](l) for j, l in enumerate(names)]
            spread = {**switch("=" + r[0], skipIf=f"={r[1]} == 1", inputs={"x": f"={r[2]}", "y": [{"z": f"=[1].map(x, {r[3]})"}]}, state={"s": f"={r[4]}", "t": {"u": f"=size({r[5]})"}}), "forEach": {"itemIn": f"=[{r[6]}, {r[7]}]", "inputKey": "item"}}
            judge_recorded(s, later, prior + [step("the_step", spread)], "the_step", set(names), f"all fields {r}"[:300])
            one = f"={r[0]} == {r[1]} ? [{r[2]}, {{'a': {r[3]}, {r[4]}: {r[5]}}}] : inputs.l.map(x, x == {r[6]} && {r[7]})"
            judge_recorded(s, later, prior + [step("the_step", {"inputs": {"x": one}})], "the_step", set(names), f"one expression {one}"[:300])
            idx = f"={r[0].rstrip()}[{r[1]}][{r[2]}]" if not r[0].startswith("(") else f"={r[0]}[{r[1]}]"
            judge_recorded(s, later, prior + [step("the_step", {"inputs": {"x": idx}})], "the_step", {names[0], names[1]}, f"nested index {idx}"[:300])
    return body


def chains(which):
    """Each step depends on those before it; then one edge is turned around."""
    def body(s, later):
        functions(s)
        n = 8
        labels = LABELS[:n]
        fields = list(FIELDS)
        for rot in which:
            forms = list(REFS)[rot:] + list(REFS)[:rot]
            specs, want = [], {}
            for i, l in enumerate(labels):
                if i == 0:
                    specs.append(step(l, {}))
                    continue
                e = "=[" + ", ".join(REFS[forms[j % len(forms)]](labels[j]) for j in range(i)) + "]"
                specs.append(step(l, FIELDS[fields[(i + rot) % len(fields)]](e)))
                want[l] = set(labels[:i])
            wf, _ = s.prepare("Workflow", "wk", {"steps": specs})
            for l, w in want.items():
                have = deps(s, wf, l)
                later.check(have is not None and w <= have, "recorded", EXT, lambda: f"chain: {l} depends on {have}, expected {sorted(w)}"[:400])
            later.check(ready(s, wf), "recorded", WFP, lambda: f"chain not ready: {s.out(s.attr(wf, 'steps_ready'))}"[:400])
            for i in range(n - 1):
                turned = list(specs)
                turned[i], turned[i + 1] = turned[i + 1], turned[i]
                judge_rejected(s, later, turned, f"chain with {labels[i]} and {labels[i + 1]} exchanged")
    return body


# expressions with the value they have when the step they name is delivered: aaa_one returns DATA
DATA = {"v": "text", "n": 3, "t": True, "l": [1, 2, 3], "m": {"k": {"j": "deep"}}, "name": "v", "objs": [{"k": "a"}, {"k": "b"}]}
VALUES = [("steps.aaa_one.v", "text"), ("steps['aaa_one'].v", "text"), ("steps['aaa_one']['v']", "text"), ("steps[r'aaa_one'].v", "text"), ("steps['''aaa_one'''].v", "text"), ("steps['\\x61aa_one'].n", 3), ("(steps).aaa_one.n", 3), ("(steps.aaa_one).m.k.j", "deep"),
          (".steps.aaa_one.n + 1", 4), ("steps.aaa_one.l[1]", 2), ("steps.aaa_one.l.map(x, x + 1)", [2, 3, 4]), ("[1].map(x, x + steps.aaa_one.n)", [4]), ("[1, 3].filter(x, x == steps.aaa_one.n)", [3]), ("{'a': steps.aaa_one.v}", {"a": "text"}), ("{'a': steps.aaa_one.v}.a", "text"),
          ("{steps.aaa_one.v: 1}", {"text": 1}), ("[steps.aaa_one.n][0]", 3), ("true ? steps.aaa_one.v : 'no'", "text"), ("has(steps.aaa_one.v) ? 'y' : 'n'", "y"), ("has(steps.aaa_one.zz) ? 'y' : 'n'", "n"), ("steps.aaa_one[steps.aaa_one.name]", "text"), ("size(steps.aaa_one.l)", 3),
          ("steps.aaa_one.v.split('x')", ["te", "t"]), ("'a-text'.split(steps.aaa_one.v)", ["a-", ""]), ("inputs.absent || steps.aaa_one.t", True), ("[1, 2, 3, 4][steps.aaa_one.n]", 4), ("steps.aaa_one.objs.exists(o, o.k == 'b')", True), ("steps.aaa_one.objs.map(o, o.k + steps.aaa_one.v)", ["atext", "btext"]),
          ("steps['aaa' + '_one'].n - steps.aaa_one.n", 0), ("string(steps.aaa_one.n) + steps.aaa_one.v", "3text"), ("{'a': {'n': steps.aaa_one.n}}.a.n", 3), ("[[steps.aaa_one.v]].flatten()", ["text"]), ("{'v': 1}.overlay({'v': steps.aaa_one.n})", {"v": 3}), ("3 in steps.aaa_one.l", True)]


def delivered(items):
    def body(s, later):
        s.cache("ValueFunction", "vf-data", {"return": DATA})
        s.cache("ValueFunction", "vf-echo", {"return": {"x": "=inputs.x"}})
        for e, v in items:
            for place in ("inputs", "switch", "each"):
                the = {"label": "the_step", "ref": {"kind": "ValueFunction", "name": "vf-echo"}, "inputs": {"x": f"={e}"}}
                if place == "switch":
                    the.pop("ref")
                    the["refSwitch"] = {"switchOn": f"=size([{e}]) == 1 ? 'go' : 'no'", "cases": [{"case": "go", "kind": "ValueFunction", "name": "vf-echo"}]}
                elif place == "each":
                    the["forEach"] = {"itemIn": f"=[{e}]", "inputKey": "x"}
                    the.pop("inputs")
                wf, _ = s.prepare("Workflow", "wk", {"steps": [{"label": "aaa_one", "ref": {"kind": "ValueFunction", "name": "vf-data"}}, the]})
                s.ip.loop.latency = None
                out = run_workflow(s, wf, Cluster(s.ip), {"o": "Ok"})
                what = f"{place} {e!r}"
                res = s.attr(out, "result")
                if s.kind(res) not in ("value", "Ok"):
                    later.check(False, "delivered", EXT, lambda: f"{what}: {s.out(res)}"[:400])
                    continue
                got = plain(s.ip, res)
                want = [{"x": v}] if place == "each" else {"x": v}
                later.check(any(same(x, want) for x in got), "delivered", EXT, lambda: f"{what}: {got!r}, expected {want!r}")
    return body


# ------------------------------------------------------------------ watched resources
def names(s, watched):
    ip = s.ip
    out = set()
    for r in ip.listof(watched) if watched is not None else []:
        t = ip.force(s.attr(r, "resource_type"))
        out.add((t.name, str(ip.force(s.attr(r, "name")))))
    return out


def put(s, kind, name, state):
    """A named resource that is absent, prepared, or failed."""
    if state == "absent":
        return
    bad = state == "broken"
    if kind == "ValueFunction":
        s.cache(kind, name, {"return": {"v": "=1 +" if bad else 1}})
    elif kind == "ResourceFunction":
        s.cache(kind, name, rf_spec(**{"return": {"v": "=1 +" if bad else 1}}))
    elif kind == "Workflow":
        put(s, "ValueFunction", f"in-{name}", "ok")
        s.cache(kind, name, {"steps": 5} if bad else {"steps": [{"label": "sub", "ref": {"kind": "ValueFunction", "name": f"in-{name}"}}]})


LOGIC = ("ValueFunction", "ResourceFunction", "Workflow")
STATES = ("ok", "absent", "broken")
# other things that may be wrong with the step
FLAWS = {"none": {}, "skipIf": {"skipIf": "=1 +"}, "itemIn": {"forEach": {"itemIn": "=[", "inputKey": "x"}}, "inputs": {"inputs": {"a": "=1 ="}}, "state": {"state": {"a": "=)"}}, "order": {"inputs": {"a": "=steps.nothere.x"}}, "own": {"skipIf": "=steps.the_step.x"},
         "empty-itemIn": {"forEach": {"itemIn": "", "inputKey": "x"}}, "no-key": {"forEach": {"itemIn": "=[1]", "inputKey": ""}}, "condition": {"condition": {"type": "TheStep", "name": "x"}}}


def judge_watched(s, later, kind, spec, want, what, where):
    r = s.prepare_raw(kind, "def", spec)
    if s.kind(r) != "value":
        # nothing was prepared: there is no subscription list to report
        later.check(True, "watched", where, None)
        return False
    have = names(s, s.ip.listof(r)[1])
    missing = want - have
    later.check(not missing, "watched", where, lambda: f"{what}: {sorted(missing)} not watched, only {sorted(have)}"[:400])
    return True


def wf_watch(kind):
    def body(s, later):
        for st in STATES:
            put(s, kind, f"{st}-fn", st)
        for (flaw, more), st in itertools.product(FLAWS.items(), STATES):
            ref = {"kind": kind, "name": f"{st}-fn"}
            t = judge_watched(s, later, "Workflow", {"steps": [{"label": "the_step", "ref": ref, **more}]}, {(kind, f"{st}-fn")}, f"step with {flaw} flaw, {kind} {st}", WFP)
            if flaw == "none":
                later.check(t, "watched", WFP, lambda: f"{kind} {st}: the Workflow was not prepared")
            dup = [{"label": "the_step", "ref": {"kind": "ValueFunction", "name": "first"}}, {"label": "the_step", "ref": ref, **more}, {"label": "the_third", "ref": {"kind": kind, "name": "third"}}]
            judge_watched(s, later, "Workflow", {"steps": dup}, {(kind, f"{st}-fn"), (kind, "third"), ("ValueFunction", "first")}, f"duplicate label with {flaw} flaw, {kind} {st}", WFP)
    return body


def switch_watch(n):
    def body(s, later):
        cases = [{"case": f"c{i}", "kind": LOGIC[(i + n) % 3], "name": f"{STATES[(i // 3) % 3]}-fn-{i}"} for i in range(n)]
        want = {(c["kind"], c["name"]) for c in cases}
        for i, c in enumerate(cases):
            put(s, c["kind"], c["name"], STATES[(i // 3) % 3])
        on = {"ok": "=inputs.k", "syntax": "=1 +", "empty": "", "later": "=steps.later", "plain": "plain"}
        for how, text in on.items():
            for defaults in ((), (0,), (n - 1,), (0, n - 1), tuple(range(n))):
                cs = [{**c, **({"default": True} if i in defaults else {})} for i, c in enumerate(cases)]
                for same_case in (False, True):
                    if same_case:
                        cs = [{**c, "case": "same"} for c in cs]
                    for flaw in ("none", "inputs", "skipIf"):
                        sp = {"steps": [{"label": "the_step", "refSwitch": {"switchOn": text, "cases": cs}, **FLAWS[flaw]}]}
                        judge_watched(s, later, "Workflow", sp, want, f"refSwitch of {n} cases, switchOn {text!r}, defaults {defaults}, same {same_case}, {flaw} flaw", WFP)
    return body


def many_watch(s, later):
    for st in STATES:
        for k in LOGIC:
            put(s, k, f"{st}-fn", st)
    for rot in range(9):
        steps, want = [], set()
        for i in range(20):
            k, st = LOGIC[(i + rot) % 3], STATES[(i + rot // 3) % 3]
            nm = f"{st}-fn" if i % 2 else f"only-{i}"
            if i % 5 == 4:
                steps.append({"label": f"step_{i}", "refSwitch": {"switchOn": "='a'", "cases": [{"case": "a", "kind": k, "name": nm}, {"case": "b", "kind": "ValueFunction", "name": f"alt-{i}"}]}})
                want.add(("ValueFunction", f"alt-{i}"))
            else:
                steps.append({"label": f"step_{i}", "ref": {"kind": k, "name": nm}, **list(FLAWS.values())[(i + rot) % len(FLAWS)]})
            want.add((k, nm))
        later.check(judge_watched(s, later, "Workflow", {"steps": steps}, want, f"twenty steps {rot}", WFP), "watched", WFP, lambda: f"twenty steps {rot} not prepared")


OFLAWS = {"none": {}, "skipIf": {"skipIf": "=1 +"}, "inputs": {"inputs": {"a": "=)"}}, "skip": {"skipIf": "=inputs.no"}, "good-inputs": {"inputs": {"a": "=inputs.a"}}, "missing-input": {"inputs": {"zz": 1}}}


def rf_watch(flaws):
    def body(s, later):
        for st in STATES:
            put(s, "ValueFunction", f"{st}-fn", st)
        s.cache("ValueFunction", "needs-fn", {"return": {"v": "=inputs.a"}})
        fns = [f"{st}-fn" for st in STATES] + ["needs-fn"]
        inline = [{"overlay": {"spec": {"a": 2}}}, {"overlay": {"spec": {"a": "=1 +"}}}, {"skipIf": "=)", "overlay": {"a": 1}}, {"overlay": {}}]
        for (flaw, more), fn in itertools.product(flaws.items(), fns):
            ref = {"overlayRef": {"kind": "ValueFunction", "name": fn}, **more}
            what = f"overlayRef {fn} with {flaw}"
            ok = judge_watched(s, later, "ResourceFunction", rf_spec(overlays=[ref]), {("ValueFunction", fn)}, what, RFP)
            later.check(ok, "watched", RFP, lambda: f"{what}: not prepared")
            for other in inline:
                for order in (0, 1):
                    ov = [other, ref] if order else [ref, other]
                    judge_watched(s, later, "ResourceFunction", rf_spec(overlays=ov), {("ValueFunction", fn)}, f"{what}, beside {other}, order {order}", RFP)
            for fn2 in fns:
                for (f2, more2) in OFLAWS.items():
                    ref2 = {"overlayRef": {"kind": "ValueFunction", "name": fn2}, **more2}
                    judge_watched(s, later, "ResourceFunction", rf_spec(overlays=[ref2, ref]), {("ValueFunction", fn), ("ValueFunction", fn2)}, f"{what}, after {fn2} with {f2}", RFP)
        many = [{"overlayRef": {"kind": "ValueFunction", "name": f"m{i}"}} for i in range(10)]
        judge_watched(s, later, "ResourceFunction", rf_spec(overlays=many), {("ValueFunction", f"m{i}") for i in range(10)}, "ten overlay functions", RFP)
        for tpl in ("=inputs.t", "tpl"):
            spec = rf_spec(overlays=[{"overlayRef": {"kind": "ValueFunction", "name": "absent-fn"}}])
            spec.pop("resource", None)
            spec["resourceTemplateRef"] = {"name": tpl}
            judge_watched(s, later, "ResourceFunction", spec, {("ValueFunction", "absent-fn")}, f"template {tpl!r}", RFP)
    return body


CASE = {"expectReturn": {"v": 1}}
FT_CASES = [[], [CASE], [{**CASE, "inputOverrides": {"t": "t9", "a": {"b": 1}}}], [CASE, {**CASE, "inputOverrides": {"t": "t8"}}, {**CASE, "inputOverrides": {"q": 1}}], [{**CASE, "skip": True}], [{**CASE, "variant": True, "inputOverrides": {"t": "t7"}}, {**CASE, "label": "x"}]]


def ft_watch(s, later):
    for st in STATES:
        for k in LOGIC[:2]:
            put(s, k, f"{st}-fn", st)
    for k, st, cases, inputs in itertools.product(LOGIC[:2], STATES, FT_CASES, (None, {"t": "t1"})):
        spec = {"functionRef": {"kind": k, "name": f"{st}-fn"}, "testCases": cases, **({"inputs": inputs} if inputs else {})}
        what = f"FunctionTest of {k} {st}, {len(cases)} cases"
        judge_watched(s, later, "FunctionTest", spec, {(k, f"{st}-fn")}, what, FTP)
        if cases:
            later.check(judge_watched(s, later, "FunctionTest", {**spec, "testCases": [CASE]}, {(k, f"{st}-fn")}, what, FTP), "watched", FTP, lambda: f"{what}: not prepared")


TEMPLATES = {"static": ("tpl-static", lambda i: "tpl-static"), "static-expr": ("='tpl-' + 'x'", lambda i: "tpl-x"), "input": ("=inputs.t", lambda i: i["t"]), "computed": ("='tpl-' + inputs.t", lambda i: "tpl-" + i["t"]), "index": ("=inputs['t'] + '-i'", lambda i: i["t"] + "-i"),
             "local": ("=locals.tpl", lambda i: "loc-" + i["t"]), "cond": ("=has(inputs.q) ? 'qq' : 'nq'", lambda i: "qq" if "q" in i else "nq"), "deep": ("=inputs.m.t", lambda i: i["m"]["t"]), "macro": ("=['a', 'b'].map(x, x + inputs.t)[1]", lambda i: "b" + i["t"])}
BASE = {"t": "t1", "m": {"t": "mt", "z": 1}}


def merge(a, b):
    out = dict(a)
    for k, v in b.items():
        out[k] = merge(out[k], v) if isinstance(v, dict) and isinstance(out.get(k), dict) else v
    return out


def template_watch(s, later):
    overrides = [{}, {"t": "t2"}, {"q": 1}, {"m": {"t": "m2"}}, {"t": "t3", "m": {"z": 2}, "q": 0}]
    for name, (text, want) in TEMPLATES.items():
        spec = rf_spec(locals={"tpl": "='loc-' + inputs.t"})
        spec.pop("resource", None)
        spec["resourceTemplateRef"] = {"name": text}
        s.cache("ResourceFunction", f"rf-{name}", spec)
        for r in (1, 2, 3):
            for combo in itertools.combinations(overrides, r):
                # variants: every case starts from the base inputs
                cases = [{**CASE, "variant": True, **({"inputOverrides": o} if o else {})} for o in combo]
                expected = {("ResourceTemplate", want(merge(BASE, o))) for o in combo} | {("ResourceFunction", f"rf-{name}")}
                ft = {"functionRef": {"kind": "ResourceFunction", "name": f"rf-{name}"}, "inputs": BASE, "testCases": cases}
                judge_watched(s, later, "FunctionTest", ft, expected, f"template name {text!r}, variants {combo}", FTP)
        # A case whose template name can not be computed does not hide the others.
        for combo in itertools.permutations(overrides + [BASE], 2):
            expected = {("ResourceFunction", f"rf-{name}")}
            for o in combo:
                try:
                    expected.add(("ResourceTemplate", want(o)))
                except KeyError:
                    pass
            ft = {"functionRef": {"kind": "ResourceFunction", "name": f"rf-{name}"}, "testCases": [{**CASE, "variant": True, **({"inputOverrides": o} if o else {})} for o in combo]}
            judge_watched(s, later, "FunctionTest", ft, expected, f"template name {text!r}, no base inputs, variants {combo}", FTP)
        own = {"functionRef": {"kind": "ResourceFunction", "name": f"rf-{name}"}, "testCases": [{**CASE, "inputOverrides": BASE}]}
        judge_watched(s, later, "FunctionTest", own, {("ResourceTemplate", want(BASE))}, f"template name {text!r}, no base inputs", FTP)


# ------------------------------------------------------------------ prepared again
DEFS = {
    "step-VF": ("Workflow", "ValueFunction", lambda n: {"steps": [{"label": "the_step", "ref": {"kind": "ValueFunction", "name": n}}]}),
    "step-RF": ("Workflow", "ResourceFunction", lambda n: {"steps": [{"label": "the_step", "ref": {"kind": "ResourceFunction", "name": n}}]}),
    "step-WF": ("Workflow", "Workflow", lambda n: {"steps": [{"label": "the_step", "ref": {"kind": "Workflow", "name": n}}]}),
    "switch-first": ("Workflow", "ValueFunction", lambda n: {"steps": [{"label": "the_step", "refSwitch": {"switchOn": "='a'", "cases": [{"case": "a", "kind": "ValueFunction", "name": n}, {"case": "b", "kind": "ValueFunction", "name": "always"}]}}]}),
    "switch-last": ("Workflow", "ResourceFunction", lambda n: {"steps": [{"label": "the_step", "refSwitch": {"switchOn": "='a'", "cases": [{"case": "a", "kind": "ValueFunction", "name": "always"}, {"case": "b", "kind": "ResourceFunction", "name": n, "default": True}]}}]}),
    "second-step": ("Workflow", "ValueFunction", lambda n: {"steps": [{"label": "aaa", "ref": {"kind": "ValueFunction", "name": "always"}}, {"label": "the_step", "ref": {"kind": "ValueFunction", "name": n}}]}),
    "overlay": ("ResourceFunction", "ValueFunction", lambda n: rf_spec(overlays=[{"overlay": {"spec": {"z": 1}}}, {"overlayRef": {"kind": "ValueFunction", "name": n}}])),
    "test-VF": ("FunctionTest", "ValueFunction", lambda n: {"functionRef": {"kind": "ValueFunction", "name": n}, "testCases": [CASE]}),
    "test-RF": ("FunctionTest", "ResourceFunction", lambda n: {"functionRef": {"kind": "ResourceFunction", "name": n}, "testCases": [CASE]}),
}


def counting(s, kind, log):
    """The preparer of `kind`, logging when it is called."""
    real = s.preparer(kind)

    def call(ip, args, kw):
        def run():
            log.append(str(ip.force(args[0])))
            return ip.await_(ip.call(real, args, kw))
        return ACoro(run, "prepare")
    return ABuiltin("prepare", call)


def offer(s, kind, name, spec, version, log):
    return s.call("koreo.cache.prepare_and_cache", resource_class=s.get(PREPARERS[kind][1]), preparer=counting(s, kind, log), metadata=to_abs({"name": name, "resourceVersion": version}), spec=to_abs(spec))


def healthy(kind, version):
    if kind == "ValueFunction":
        return {"return": {"v": f"gen-{version}"}}
    if kind == "ResourceFunction":
        return rf_spec(**{"return": {"v": f"gen-{version}"}})
    return {"steps": [{"label": "sub", "ref": {"kind": "ValueFunction", "name": "always"}, "inputs": {"g": f"gen-{version}"}}]}


HISTORIES = [("appear", "change", "vanish", "appear"), ("appear", "vanish", "appear", "change"), ("broken", "change", "broken", "change", "vanish"), ("appear", "change", "change", "vanish", "appear", "vanish")]


def reprepared(which):
    kind, ref_kind, spec = DEFS[which]

    def body(s, later):
        ip = s.ip
        for h, history in enumerate(HISTORIES):
            for first in (False, True):
                log, other = [], []
                fn, name, version = f"fn-{h}-{first}", f"def-{h}-{first}", 0
                offer(s, "ValueFunction", "always", {"return": {"v": 0}}, "1", other)
                if first:
                    offer(s, ref_kind, fn, healthy(ref_kind, 0), "v0", other)
                offer(s, kind, name, spec(fn), "1", log)
                ip.loop.sleep(1)
                for i, what in enumerate(history):
                    n = len(log)
                    version += 1
                    if what == "vanish":
                        s.call("koreo.cache.delete_from_cache", resource_class=s.get(PREPARERS[ref_kind][1]), cache_key=fn)
                    elif what == "broken":
                        offer(s, ref_kind, fn, {}, f"v{version}", other)
                    else:
                        offer(s, ref_kind, fn, healthy(ref_kind, version), f"v{version}", other)
                    ip.loop.sleep(1)
                    later.check(name in log[n:], "reprepared", PREPARERS[kind][0],
                                lambda: f"{kind} naming {ref_kind} ({which}): not prepared again after {history[:i + 1]}{' (offered after it)' if first else ''}")
    return body


def scenarios(chk, tier):
    J = lambda body, rule, label, construct=EXT: lambda rec: judged(rec, body, rule, label, construct=construct)
    deep = tier != "quick"
    # every context with a few spellings, in inputs
    core = ["member", "index", "raw", "paren-member", "absolute-index", "method"] if not deep else list(REFS)[::2]
    cases = [(c, r) for r in core for c in CONTEXTS]
    for i in range(0, len(cases), 17 * 10):
        yield f"contexts:{i}", J(packed("inputs", cases[i:i + 170]), "recorded", f"contexts {i}")
    # every spelling in the small contexts
    cases = [(c, r) for c in (SMALL if not deep else CONTEXTS) for r in REFS]
    for i in range(0, len(cases), 17 * 10):
        yield f"spellings:{i}", J(packed("inputs", cases[i:i + 170]), "recorded", f"spellings {i}")
    # compositions of contexts
    comp = [(a.replace("@", f"({b})"), r) for a, b in itertools.product(SMALL if not deep else CONTEXTS[::3], CONTEXTS) for r in (("whole",) if not deep else ("whole", "index-member"))]
    comp = comp[::3] if not deep else comp
    for i in range(0, len(comp), 17 * 12):
        yield f"compositions:{i}", J(packed("inputs", comp[i:i + 204]), "recorded", f"compositions {i}")
    # fields
    for f in FIELDS:
        refs = list(REFS)
        cs = [(SMALL[(i + j) % len(SMALL)], r) for i, r in enumerate(refs) for j in range(1 if not deep else 4)] + [(c, refs[i % len(refs)]) for i, c in enumerate(CONTEXTS[::4 if not deep else 1])]
        for i in range(0, len(cs), 17 * 2):
            yield f"field:{f}:{i}", J(packed(f, cs[i:i + 34]), "recorded", f"field {f}")
    cs = [(c, r) for r in ("member", "index-member") for c in CONTEXTS]
    for i in range(0, len(cs), 17 * 7):
        yield f"state:{i}", J(packed("state", cs[i:i + 119]), "recorded", f"state {i}")
    # rejected labels
    for k, f in enumerate(FIELDS):
        refs = list(REFS)
        cs = [(SMALL[(i + k) % len(SMALL)], r) for i, r in enumerate(refs) if deep or (i + k) % 3 == 0] + [(c, refs[(i + k) % len(refs)]) for i, c in enumerate(CONTEXTS) if deep or (i + k) % 12 == 0]
        for i in range(0, len(cs), 25):
            yield f"reject:{f}:{i}", J(rejections(f, cs[i:i + 25]), "rejected", f"reject {f}", WFP)
    for i in range(0, len(ODD_LABELS), 4):
        yield f"odd-labels:{i}", J(odd_labels(ODD_LABELS[i:i + 4]), "recorded", "odd labels")
    yield "numeral-labels", J(numeral_labels, "recorded", "numeral labels")
    forms = list(REFS)
    for i in range(0, len(forms), 8):
        yield f"several:{i}", J(several(range(i, min(i + 8, len(forms)))), "recorded", "several")
    for i in range(0, len(forms), 10):
        yield f"chains:{i}", J(chains(range(i, min(i + 10, len(forms)), 5)), "recorded", "chains")
    for i in range(0, len(VALUES), 6):
        yield f"delivered:{i}", J(delivered(VALUES[i:i + 6]), "delivered", f"delivered {i}")
    for k in LOGIC:
        yield f"watch-step:{k}", J(wf_watch(k), "watched", f"watch {k}", WFP)
    for n in (1, 2, 3, 6, 10):
        yield f"watch-switch:{n}", J(switch_watch(n), "watched", f"watch switch {n}", WFP)
    yield "watch-many", J(many_watch, "watched", "watch many", WFP)
    for f in OFLAWS:
        yield f"watch-overlay:{f}", J(rf_watch({f: OFLAWS[f]}), "watched", f"watch overlay {f}", RFP)
    yield "watch-test", J(ft_watch, "watched", "watch test", FTP)
    yield "watch-template", J(template_watch, "watched", "watch template", FTP)
    for w in DEFS:
        yield f"reprepared:{w}", J(reprepared(w), "reprepared", f"reprepared {w}", PREPARERS[DEFS[w][0]][0])
