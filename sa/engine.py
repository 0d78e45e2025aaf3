"""Enumeration of the abstract paths of a scenario."""
import time

from .values import *
from . import values as V
from .interp import Interp, Program, clone
from .loop import Hang
from . import cel


class Path:
    """What one abstract path did."""
    __slots__ = ("decisions", "events", "imprecise", "outcome", "error", "notes", "steps")

    def key(self):
        return tuple(d[0] for d in self.decisions)

    def choices(self):
        out = []
        for c, n, tag in self.decisions:
            out.append(f"{tag}={c}")
        return out


class Checker:
    """Holds the parsed program and its module state; runs scenarios over it."""

    def __init__(self, root="/repo"):
        self.program = Program(root)
        self.ip = Interp(self.program)
        self.called = set()
        self.lines = set()
        self.paths = 0
        self.undecided = []
        self.base = None
        self.steps = 0

    def load(self, *mods):
        ip = self.ip
        ip.hooks = dict(cel.HOOKS)
        ip.initing = True
        for m in mods or sorted(self.program.files):
            try:
                ip.import_name(m)
            except AExc as e:
                raise RuntimeError(f"module {m} does not load: {e.value!r} at {e.trace[-1:]}")
        ip.initing = False
        if ip.imprecise:
            raise RuntimeError(f"module top level not modelled: {ip.imprecise}")
        self.snapshot()

    def snapshot(self):
        memo = {}
        self.base = {n: {k: clone(v, memo) for k, v in m.globals.items()} for n, m in self.ip.modules.items()}

    def reset(self):
        ip = self.ip
        memo = {}
        for n in list(ip.modules):
            if n not in self.base:
                del ip.modules[n]
        for n, g in self.base.items():
            m = ip.modules[n]
            m.globals.clear()
            for k, v in g.items():
                m.globals[k] = clone(v, memo)
        for cls, name, old in reversed(getattr(ip, "class_overlay", [])):
            if old is MISSING:
                cls.ns.pop(name, None)
            else:
                cls.ns[name] = old
        ip.class_overlay = []
        ip.override = {}
        ip.decisions = []
        ip.events = []
        ip.frames = []
        ip.imprecise = []
        ip.steps = 0
        ip.task = None
        ip.tasks = []
        ip.eqmemo = {}
        ip.fn_defaults = {}
        ip.hooks = dict(cel.HOOKS)
        ip.timeout_stack = []
        ip.uid = 0
        ip.clock = 0
        ip.set_order = 1
        ip.keep = []
        ip.singletons = {}
        ip.cur_exc = []
        from .loop import Loop
        ip.loop = Loop(ip)

    def run(self, scenario, prefix=()):
        """One abstract path.  `scenario(ip)` performs the analysis of the path and returns its result."""
        ip = self.ip
        self.reset()
        ip.prefix = prefix
        p = Path()
        p.outcome, p.error = None, None
        try:
            p.outcome = scenario(ip)
        except Abort as e:
            p.error = ("abort", str(e))
        except AExc as e:
            p.error = ("raise", e)
        except Hang:
            p.error = ("hang", None)
        except RecursionError as e:
            p.error = ("abort", "host recursion")
        except AnchorLost:
            raise
        except Exception as e:
            tb = e.__traceback__
            while tb.tb_next is not None:
                tb = tb.tb_next
            p.error = ("abort", f"{type(e).__name__}: {e} [{tb.tb_frame.f_code.co_filename.rsplit('/', 1)[-1]}:{tb.tb_lineno}]")
        finally:
            ip.loop.close()
        p.decisions = list(ip.decisions)
        p.events = ip.events
        p.imprecise = list(ip.imprecise)
        p.steps = ip.steps
        self.called |= ip.called
        self.paths += 1
        self.steps += ip.steps
        return p

    def explore(self, scenario, limit=4000):
        """Every path of the scenario, depth first, up to `limit`; yields Path."""
        stack = [()]
        n = 0
        self.truncated = False
        while stack:
            if n >= limit:
                self.truncated = True
                return
            prefix = stack.pop()
            p = self.run(scenario, prefix)
            n += 1
            for i in range(len(p.decisions) - 1, len(prefix) - 1, -1):
                c, k, tag = p.decisions[i]
                for alt in range(k - 1, c, -1):
                    stack.append(tuple(d[0] for d in p.decisions[:i]) + (alt,))
            yield p

    def get(self, dotted):
        """Object by dotted name: 'koreo.result.combine'."""
        mod, _, name = dotted.rpartition(".")
        while mod and mod not in self.ip.modules:
            mod, _, head = mod.rpartition(".")
            name = head + "." + name
        if mod not in self.ip.modules:
            raise AnchorLost(dotted)
        v = self.ip.modules[mod]
        for part in name.split("."):
            if isinstance(v, AModule):
                if part not in v.globals:
                    raise AnchorLost(dotted)
                v = v.globals[part]
            else:
                v = v.lookup(part)
                if v is MISSING:
                    raise AnchorLost(dotted)
        return v


class AnchorLost(Exception):
    pass
