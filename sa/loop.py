"""Model of the asyncio event loop for the abstract interpreter.

Tasks are interpreted as coroutines (one suspended worker per task, exactly one running at any time);
external operations suspend the task and complete at a virtual time given by the scenario, so the order in
which concurrent operations complete is a parameter of the analysis and never depends on the host.
"""
import heapq
import sys
import threading
from collections import deque

from .values import *

threading.stack_size(128 * 1024 * 1024)


class Kill(BaseException):
    pass


class Hang(Exception):
    """Nothing can make progress any more."""


class Worker:
    def __init__(self, loop, task):
        self.loop = loop
        self.task = task
        self.sem = threading.Semaphore(0)
        self.frames = []
        self.cur_exc = []
        self.crash = None
        self.finished = False
        self.kill = False
        self.inject = None
        self.thread = threading.Thread(target=self.main, daemon=True)
        self.thread.start()

    def main(self):
        self.sem.acquire()
        loop, t = self.loop, self.task
        try:
            if self.kill:
                raise Kill()
            if t.must_cancel:
                t.must_cancel = False
                t.coro.started = True
                loop.ip.throw(CANCELLED)
            t.started = True
            r = loop.ip.await_(t.coro)
            loop.finish(t, r)
        except AExc as e:
            if e.value.cls.issub(CANCELLED):
                loop.finish(t, None, cancelled=True, exc=e)
            else:
                loop.finish(t, None, exc=e)
        except Kill:
            pass
        except BaseException as e:  # Abort and internal errors
            self.crash = e
        finally:
            self.finished = True
            loop.main.release()


class GenWorker:
    """A running generator: its body is interpreted up to the next yield each time it is resumed."""
    def __init__(self, ip, g):
        self.ip, self.g = ip, g
        self.sem = threading.Semaphore(0)
        self.back = threading.Semaphore(0)
        self.frames, self.excs = [], []
        self.out, self.crash = None, None
        self.kill = self.finished = False
        self.inject, self.sent = None, None
        ip.loop.gens.append(self)
        self.thread = threading.Thread(target=self.main, daemon=True)
        self.thread.start()

    def main(self):
        self.sem.acquire()
        try:
            if self.kill:
                raise Kill()
            if self.inject is not None:
                e, self.inject = self.inject, None
                raise e
            self.g.ret = self.ip.run_body(self.g.func, self.g.env, self.on_yield)
        except BaseException as e:
            self.crash = e
        finally:
            self.finished = True
            self.back.release()

    def on_yield(self, x):
        self.out = (x,)
        self.back.release()
        self.sem.acquire()
        if self.kill:
            raise Kill()
        if self.inject is not None:
            e, self.inject = self.inject, None
            raise e
        s, self.sent = self.sent, None
        return s

    def resume(self, sent=None, inject=None):
        """The next yielded value as a 1-tuple, or None when the body has ended."""
        ip = self.ip
        nf, ne = len(ip.frames), len(ip.cur_exc)
        ip.frames = ip.frames + self.frames
        ip.cur_exc = ip.cur_exc + self.excs
        self.out, self.sent, self.inject = None, sent, inject
        self.sem.release()
        self.back.acquire()
        self.frames, ip.frames = ip.frames[nf:], ip.frames[:nf]
        self.excs, ip.cur_exc = ip.cur_exc[ne:], ip.cur_exc[:ne]
        if self.crash is not None:
            c, self.crash = self.crash, None
            raise c
        return self.out


class Loop:
    def __init__(self, ip):
        self.gens = []
        self.ip = ip
        self.main = threading.Semaphore(0)
        self.ready = deque()
        self.timers = []
        self.seq = 0
        self.now = 0.0
        self.workers = []
        self.current = None
        self.latency = None
        self.turns = 0
        self.reverse = False

    # -- scheduling primitives
    def call_soon(self, fn):
        self.ready.append(fn)

    def call_at(self, when, fn):
        self.seq += 1
        ent = [when, self.seq, fn]
        heapq.heappush(self.timers, ent)
        return ent

    def spawn(self, coro, name):
        self.ip.uid += 1
        t = ATask(coro, name if name is not None else f"Task-{self.ip.uid}", self.ip.lib.TASK)
        self.ip.tasks.append(t)
        self.call_soon(lambda: self.step(t))
        return t

    def step(self, t):
        if t.done:
            return
        if t.worker is None:
            t.worker = Worker(self, t)
            self.workers.append(t.worker)
        w = t.worker
        ip = self.ip
        saved = (ip.frames, ip.cur_exc, ip.task, self.current)
        ip.frames, ip.cur_exc, ip.task, self.current = w.frames, w.cur_exc, t, w
        t.waiting = None
        w.sem.release()
        self.main.acquire()
        w.frames, w.cur_exc = ip.frames, ip.cur_exc
        ip.frames, ip.cur_exc, ip.task, self.current = saved
        if w.crash is not None:
            c, w.crash = w.crash, None
            raise c

    def finish(self, f, result, cancelled=False, exc=None):
        if f.done:
            return
        f.done = True
        f.cancelled = cancelled
        f.result = result
        f.exc = exc
        cbs, f.callbacks = f.callbacks, []
        for cb in cbs:
            self.schedule_cb(f, cb)

    def schedule_cb(self, f, cb):
        ip = self.ip
        if callable(cb) and not isinstance(cb, Heap):
            self.call_soon(lambda: cb(f))
        else:
            def run():
                saved, ip.frames = ip.frames, []
                try:
                    ip.call(cb, [f], {})
                except AExc as e:
                    ip.emit("callback_error", exc=e, cb=cb)
                finally:
                    ip.frames = saved
            self.call_soon(run)

    def add_cb(self, f, cb):
        if f.done:
            self.schedule_cb(f, cb)
        else:
            f.callbacks.append(cb)

    def remove_cb(self, f, cb):
        if cb in f.callbacks:
            f.callbacks.remove(cb)

    def wait_fut(self, f):
        """Suspend the running task until `f` is done; returns its result or raises."""
        w = self.current
        if w is None:
            raise Abort("await outside a task")
        t = w.task
        if not f.done:
            t.waiting = f

            def wake(_):
                if t.waiting is f:
                    self.step(t)
            f.callbacks.append(wake)
            if t.must_cancel:
                t.must_cancel = False
                self.cancel(f)
            self.switch(w)
        if f.done:
            if f.cancelled:
                if isinstance(f, ATask) and f.exc is not None:
                    self.ip.throw(f.exc.value)
                self.ip.throw(CANCELLED)
            if f.exc is not None:
                e = AExc(f.exc.value)
                e.trace = f.exc.trace
                raise e
            return f.result
        raise Abort("task resumed early")

    def switch(self, w):
        self.main.release()
        w.sem.acquire()
        if w.kill:
            raise Kill()

    def pause(self):
        """One turn of the loop (asyncio.sleep(0)): the task runs again in the next iteration."""
        f = AFut("turn")

        def again():
            if not f.done:
                f.done = True
                cbs, f.callbacks = f.callbacks, []
                for cb in cbs:
                    cb(f)
        self.call_soon(again)
        return self.wait_fut(f)

    def sleep(self, delay):
        if not delay or delay <= 0:
            return self.pause()
        f = AFut("sleep")
        self.call_at(self.now + delay, lambda: self.finish(f, None))
        return self.wait_fut(f)

    def external(self, label, thunk):
        """An operation of the outside world: completes after the scenario's latency; None = never."""
        lat = self.latency(self.ip, label) if self.latency else 0
        f = AFut(f"io:{label}")
        if lat is None:
            self.ip.emit("hang", label=label)
        elif lat == 0:
            self.call_soon(lambda: self.finish(f, None))
        else:
            self.call_at(self.now + lat, lambda: self.finish(f, None))
        self.wait_fut(f)
        return thunk()

    def cancel(self, f, msg=None):
        if f.done:
            return False
        if isinstance(f, ATask):
            f.cancelling += 1
            if f.waiting is not None:
                if self.cancel(f.waiting):
                    return True
            f.must_cancel = True
            return True
        owner = f.attrs.get("__children")
        if owner:
            for c in owner:
                self.cancel(c)
            return True
        self.finish(f, None, cancelled=True)
        return True

    # -- running
    def run_until(self, pred, max_turns=20000):
        n = 0
        while not pred():
            n += 1
            if n > max_turns:
                raise Abort("event loop bound")
            if self.ready:
                if self.reverse and len(self.ready) > 1:
                    fn = self.ready.pop()
                else:
                    fn = self.ready.popleft()
                self.turns += 1
                fn()
            elif self.timers:
                when, _, fn = heapq.heappop(self.timers)
                if fn is None:
                    continue
                self.now = max(self.now, when)
                fn()
            else:
                raise Hang()

    def run(self, coro, name="main"):
        t = self.spawn(coro, name)
        self.run_until(lambda: t.done)
        return t

    def idle(self, max_turns=5000, timers=False):
        """Run until nothing is ready."""
        n = 0
        while self.ready or (timers and self.timers):
            n += 1
            if n > max_turns:
                raise Abort("event loop does not become idle")
            if self.ready:
                self.ready.popleft()()
            else:
                when, _, fn = heapq.heappop(self.timers)
                if fn is not None:
                    self.now = max(self.now, when)
                    fn()

    def turn(self):
        """One loop iteration: everything ready now."""
        for _ in range(len(self.ready)):
            self.ready.popleft()()

    def close(self):
        for w in self.workers:
            if not w.finished:
                w.kill = True
                w.sem.release()
                self.main.acquire()
        for w in self.workers:
            w.thread.join()
        self.workers = []
        for g in self.gens:
            if not g.finished:
                g.kill = True
                g.sem.release()
                g.back.acquire()
            g.thread.join()
        self.gens = []
