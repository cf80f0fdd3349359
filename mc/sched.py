"""
Controlled thread scheduler: explores every schedule of the threads of a scenario
up to a preemption bound, on the real code.

One thread holds the token and runs; at every source line (or byte code) of the
traced files it may hand the token to another thread that can run.  Blocking in
the standard library (conditions, events, locks, queues, futures, joins, thread
pools: all of them are built on the primitives replaced here) releases the token
until the awaited event has happened.  No other switch happens, so a schedule is
determined by the list of choices and can be replayed.
"""
import _thread
import contextlib
import gc
import queue as _queue
import sys
import threading
import time

try:
    from jax._src.core import trace_state_clean
except Exception:                                    # pragma: no cover
    def trace_state_clean():
        return True

_real_lock = _thread.allocate_lock
_current = None                                      # the scheduler of the running schedule
_tls = threading.local()


class Killed(BaseException):
    """unwinds a thread of an abandoned schedule"""


class Deadlock(Exception):
    pass


class T:
    def __init__(self, name):
        self.name, self.sem = name, _real_lock()
        self.sem.acquire()
        self.state, self.pred, self.timed, self.timed_out = "ready", None, False, False
        self.thread = None


def me():
    return getattr(_tls, "t", None)


class Sched:
    def __init__(self, prefix, files, opcodes=False, delays=False):
        self.prefix, self.files, self.opcodes = list(prefix), files, opcodes
        self.threads, self.trace, self.dead, self.kill = [], [], None, False
        self.cur = None
        self.steps = 0
        self.done = _real_lock()
        self.done.acquire()
        self.errors, self.quiet, self.delays = [], False, delays

    # ---- choices
    def enabled(self, exclude=None):
        out = []
        for t in self.threads:
            if t is exclude or t.state == "done":
                continue
            if t.state == "ready" or (t.state == "blocked" and t.pred()):
                out.append(t)
        return out

    def choose(self, opts, cost):
        """opts[0] is the default; the others cost `cost` preemptions"""
        if len(opts) == 1 or self.quiet:
            return opts[0]
        i = len(self.trace)
        k = self.prefix[i] if i < len(self.prefix) else 0
        if k >= len(opts):
            self.errors.append(f"schedule cannot be replayed at choice {i}")
            k = 0
        self.trace.append((len(opts), k, 1 if self.delays else cost))
        return opts[k]

    def switch(self, t):
        """hand the token to t; returns when the caller gets it back"""
        me_ = self.cur
        if t is me_:
            return
        self.cur = t
        t.sem.release()
        if me_.state != "done":
            me_.sem.acquire()

    def check(self):
        if self.kill:
            raise Killed()

    # ---- called by the running thread
    def point(self):
        t = me()
        if t is None or self.cur is not t or self.kill:
            self.check_if(t)
            return
        if self.quiet:
            return
        self.steps += 1
        others = self.enabled(t)
        if others:
            self.switch(self.choose([t] + others, 1))
            self.check()

    def check_if(self, t):
        if t is not None and self.kill and not getattr(_tls, "dying", False):
            _tls.dying = True
            raise Killed()

    def block(self, pred, timed=False):
        """wait until pred(); False when a wait with a time limit was the only thing left to run"""
        t = me()
        self.check_if(t)
        while not pred():
            if self.kill:
                return False
            t.state, t.pred, t.timed, t.timed_out = "blocked", pred, timed, False
            opts = self.enabled(t)
            if not opts:
                opts = [x for x in self.threads if x.state == "blocked" and x.timed]
                if not opts:
                    self.stop("deadlock: " + "; ".join(f"{x.name} waits" for x in self.threads if x.state == "blocked"))
                    t.state = "ready"
                    self.check_if(t)
                    return False
                opts = opts[:1]
                opts[0].timed_out = True
                opts[0].state = "ready"
            self.switch(self.choose(opts, 0)) if opts[0] is not t else None
            t.state = "ready"
            self.check_if(t)
            if t.timed_out:
                t.timed_out = False
                return False
        t.state = "ready"
        return True

    def stop(self, why):
        if self.dead is None:
            self.dead = why
        self.kill = True

    def finish(self, t):
        t.state = "done"
        if all(x.state == "done" for x in self.threads if x.user):
            self.kill = True                          # remaining workers are idle: unwind them
        if self.kill:
            left = [x for x in self.threads if x.state != "done"]
            if left:
                self.cur = left[0]
                left[0].sem.release()
            else:
                self.done.release()
            return
        opts = self.enabled()
        if not opts:
            opts = [x for x in self.threads if x.state == "blocked" and x.timed][:1]
            if opts:
                opts[0].timed_out, opts[0].state = True, "ready"
        if not opts:
            self.stop("deadlock: " + "; ".join(f"{x.name} waits" for x in self.threads if x.state == "blocked"))
            return self.finish(t)
        x = self.choose(opts, 0)
        self.cur = x
        x.sem.release()

    # ---- tracing
    def tracer(self, frame, event, arg):
        if event != "call" or not frame.f_code.co_filename.startswith(self.files):
            return None
        if self.opcodes:
            frame.f_trace_opcodes = True
            frame.f_trace_lines = False
        return self.local

    def local(self, frame, event, arg):
        if (event == "line" or event == "opcode") and trace_state_clean():
            self.point()
        return self.local

    def body(self, t, fn):
        _tls.t = t
        _tls.dying = False
        t.sem.acquire()                               # until scheduled for the first time
        try:
            if not self.kill:
                sys.settrace(self.tracer)
                fn()
        except Killed:
            pass
        finally:
            sys.settrace(None)
            _tls.dying = True
            self.finish(t)

    def add(self, name, user):
        t = T(f"{name}{len(self.threads)}")
        t.user = user
        self.threads.append(t)
        return t


# ---- replacements of the primitives -----------------------------------------
class CLock:
    """threading.Lock"""
    reentrant = False

    def __init__(self):
        self.owner, self.count = None, 0

    def acquire(self, blocking=True, timeout=-1):
        s, i = _current, me() or _thread.get_ident()
        if self.reentrant and self.owner is i:
            self.count += 1
            return True
        if self.owner is not None:
            if not blocking or s is None or me() is None:
                return False
            if not s.block(lambda: self.owner is None, timeout is not None and timeout >= 0) and self.owner is not None and not s.kill:
                return False
        self.owner, self.count = i, 1
        return True

    def release(self):
        if self.owner is None:
            raise RuntimeError("release unlocked lock")
        self.count -= 1
        if self.count <= 0:
            self.owner = None

    def locked(self):
        return self.owner is not None

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self.owner, self.count = None, 0


class CRLock(CLock):
    reentrant = True

    def _is_owned(self):
        return self.owner is (me() or _thread.get_ident())

    def _release_save(self):
        st, self.owner, self.count = (self.count, self.owner), None, 0
        return st

    def _acquire_restore(self, st):
        self.acquire()
        self.count = st[0]


class _Waiter:
    def __init__(self):
        self.set = False

    def release(self):
        self.set = True


_orig = {}


def _cond_wait(self, timeout=None):
    s, t = _current, me()
    if s is None or t is None or getattr(_tls, "raw", False):
        return _orig["cond_wait"](self, timeout)
    if not self._is_owned():
        raise RuntimeError("cannot wait on un-acquired lock")
    if timeout is not None and timeout <= 0:
        return False
    w = _Waiter()
    self._waiters.append(w)
    saved = self._release_save()
    ok = False
    try:
        ok = s.block(lambda: w.set, timeout is not None)
    finally:
        self._acquire_restore(saved)
        if not ok:
            try:
                self._waiters.remove(w)
            except ValueError:
                pass
    return ok


class CSimpleQueue:
    def __init__(self):
        self.q = []

    def put(self, x, block=True, timeout=None):
        self.q.append(x)

    put_nowait = put

    def get(self, block=True, timeout=None):
        s = _current
        if not self.q:
            if not block or s is None or me() is None:
                raise _queue.Empty
            if not s.block(lambda: bool(self.q), timeout is not None):
                raise _queue.Empty
        return self.q.pop(0)

    def get_nowait(self):
        return self.get(False)

    def empty(self):
        return not self.q

    def qsize(self):
        return len(self.q)


def _start(self):
    s, t = _current, me()
    if s is None or t is None:
        return _orig["start"](self)
    x = s.add("worker", False)
    x.thread = self
    self._verif_t = x
    run = self.run
    ev = threading.Event()
    ev._cond = threading.Condition(_real_lock())      # signalled by the new thread before it is controlled
    self._started = ev
    self.run = lambda: s.body(x, run)
    _tls.raw = True
    try:
        _orig["start"](self)
    finally:
        _tls.raw = False


def _join(self, timeout=None):
    s, t, x = _current, me(), getattr(self, "_verif_t", None)
    if s is None or t is None or x is None:
        return _orig["join"](self, timeout)
    s.block(lambda: x.state == "done", timeout is not None)


def _sleep(d):
    s, t = _current, me()
    if s is None or t is None:
        return _orig["sleep"](d)
    s.point()


@contextlib.contextmanager
def controlled():
    """replace the primitives; objects created inside use them"""
    import concurrent.futures.thread  # noqa
    import logging
    logging.getLogger("concurrent.futures").disabled = True   # workers of abandoned schedules are unwound by an exception
    saved = [(threading, n, getattr(threading, n)) for n in ("Lock", "RLock", "_allocate_lock", "_RLock", "_CRLock") if hasattr(threading, n)]
    saved += [(threading.Condition, "wait", threading.Condition.wait), (threading.Thread, "start", threading.Thread.start),
              (threading.Thread, "join", threading.Thread.join), (_queue, "SimpleQueue", _queue.SimpleQueue), (time, "sleep", time.sleep)]
    _orig.update(cond_wait=threading.Condition.wait, start=threading.Thread.start, join=threading.Thread.join, sleep=time.sleep)
    try:
        threading.Condition.wait = _cond_wait
        threading.Thread.start = _start
        threading.Thread.join = _join
        threading.Lock = CLock
        threading.RLock = CRLock
        _queue.SimpleQueue = CSimpleQueue
        time.sleep = _sleep
        yield
    finally:
        for o, n, v in saved:
            setattr(o, n, v)


def quiet():
    """called by a thread of the scenario: no switches from here on, except when it waits"""
    if _current is not None:
        _current.quiet = True


class Hang(Exception):
    pass


def run(bodies, prefix=(), files=("/repo/ormatex_py",), opcodes=False, delays=False, limit=120.0):
    """one schedule of the user threads `bodies` (functions); returns (scheduler, [(value, exception) per user thread])"""
    global _current
    s = Sched(prefix, tuple(files), opcodes, delays)
    out = [None] * len(bodies)

    def wrap(k, fn):
        def go():
            try:
                out[k] = (fn(), None)
            except Exception as e:
                out[k] = (None, e)
        return go
    _current = s
    try:
        real = []
        for k, fn in enumerate(bodies):
            t = s.add("user", True)
            real.append(_thread.start_new_thread(s.body, (t, wrap(k, fn))))
        t = s.choose(s.threads[:], 0)
        s.cur = t
        t.sem.release()
        if not s.done.acquire(timeout=limit):
            raise Hang(f"no progress for {limit:g} s")
    finally:
        _current = None
    if s.errors:
        raise AssertionError(s.errors[0])
    return s, out


def explore(make, bound, check, part=(0, 1), **kw):
    """every schedule of the scenario with at most `bound` preemptions.

    make() -> list of functions (one per user thread), fresh objects each time;
    check(sched, results, prefix) is called for every schedule.
    delays=True: a switch at a waiting thread to another one than the first that can run also counts.
    part=(i, n): this call explores the i-th of n parts of the tree."""
    gc.disable()                                      # finalizers run at the same place in every schedule
    try:
        return _explore(make, bound, check, part, kw)
    finally:
        gc.enable()


def _explore(make, bound, check, part, kw):
    for _ in range(3):                                # the interpreter specializes the byte code in the first runs
        run(make(), (), **kw)
    n = dict(schedules=0, choices=0, steps=0, longest=0)
    stack, runs = [((), True)], 0
    while stack:
        prefix, root = stack.pop()
        s, out = run(make(), prefix, **kw)
        runs += 1
        if runs % 100 == 0:
            gc.collect()
        if not (root and part[0]):
            n["schedules"] += 1
            n["choices"] += len(s.trace)
            n["steps"] += s.steps
            n["longest"] = max(n["longest"], len(s.trace))
            check(s, out, prefix)
        ch = [k for _, k, _ in s.trace]
        used, children = 0, []
        for i, (m, k, cost) in enumerate(s.trace):
            if i >= len(prefix):
                for a in range(1, m):
                    if used + cost <= bound:
                        children.append((tuple(ch[:i]) + (a,), False))
            if k > 0:
                used += cost
        if root:
            children = children[part[0]::part[1]]
        stack += reversed(children)
    return n
