"""The scheduler: every interleaving, delay and fault of a run is decided here.

Tasks are real Python threads, but only the one that holds the baton runs; the others are parked on a lock of
their own.  A task reaches an *event* whenever the code under test starts a source line (in the finest
granularity: a bytecode instruction) or calls into torch.  At an event the kernel may hand the baton to another
task, or fail the torch call the task is about to make (or has just made).  The decisions are either drawn from
the seeded generator (and recorded), or read from the record: replaying the record gives the same execution.

An event is named by (operation uid, number of the event within the operation), so that a record stays
meaningful when other operations are removed from the program during minimisation.
"""
import hashlib
import sys
import threading
import time
import _thread

import torch
from torch.overrides import TorchFunctionMode, resolve_name

MON = sys.monitoring
TOOL = 3



class SimFault(Exception):
    pass


class OutOfMemory(RuntimeError):
    """What torch raises when the allocator fails."""


class Crash(BaseException):
    """The process dies here: nothing of its memory survives."""


class Abandon(BaseException):
    """Unwinds a parked task when the run is over (deadlock, step limit, crash)."""


_names = {}


def name_of(func):
    n = _names.get(func)
    if n is None:
        try:
            n = resolve_name(func) or getattr(func, "__name__", str(type(func)))
        except Exception:
            n = getattr(func, "__name__", str(type(func)))
        n = n.replace("torch.nn.functional.", "F.").replace("torch.Tensor.", "T.").replace("torch.", "")
        _names[func] = n
    return n


# calls that allocate nothing (or that are part of the machinery of `with`/`finally` blocks): never fail them
NO_OOM = {"T.__get__", "T.__set__", "T.dim", "T.size", "T.numel", "T.stride", "T.is_floating_point", "T.data_ptr",
          "T.is_contiguous", "T.__len__", "T.__bool__", "T.item", "T.backward", "T.__hash__", "T.__iter__",
          "T.requires_grad_", "T._version", "T.detach_", "T.storage_offset", "T.element_size", "T.is_complex",
          "T.untyped_storage", "T.is_sparse", "T.__format__", "T.__repr__", "T.dtype", "T.type"}


def can_oom(name):
    if name in NO_OOM or "__get__" in name or "__set__" in name or "grad_enabled" in name or "inference_mode" in name:
        return False
    base = name.rsplit(".", 1)[-1]
    if base.startswith("__"):
        return base in ("__getitem__", "__setitem__", "__deepcopy__", "__reduce_ex__")
    if base.startswith("_"):
        return False
    if base.endswith("_") or base in ("view", "expand", "transpose", "movedim", "unsqueeze", "squeeze", "permute",
                                      "detach", "expand_as", "view_as", "diagonal"):
        return base == "index_put_"
    return True


def can_intr(name):
    return "grad_enabled" not in name and "inference_mode" not in name


class Task:
    def __init__(self, tid, ops):
        self.tid, self.ops = tid, ops
        self.lock = _thread.allocate_lock()
        self.lock.acquire()
        self.done = False
        self.blocked_on = None
        self.uid = None
        self.n = 0
        self.in_op = False
        self.op_faults = []
        self.thread = None
        self.prio = 0


class Kernel:
    """decide: object with methods preempt(kernel, task) -> tid or None and fault(kernel, task, phase, name) ->
    kind or None, used when searching; record: {"preempt": {...}, "fault": {...}} when replaying."""

    def __init__(self, gran="torch", decide=None, record=None, step_cap=400000):
        self.tasks = {}
        self.gran = gran
        self.decide = decide
        self.record = record
        self.pre, self.flt, self.nxt = [], [], []
        if record is not None:
            self.r_pre = {(u, n): t for u, n, t in record.get("pre", [])}
            self.r_flt = {(u, n, ph): k for u, n, ph, k in record.get("flt", [])}
            self.r_nxt = {(a, i): t for a, i, t in record.get("nxt", [])}
        self.cur = None
        self.by_ident = {}
        self.steps = 0
        self.cap = step_cap
        self.trace = hashlib.sha256()
        self.ileave = hashlib.sha256()
        self.switches = 0
        self.n_handover = 0
        self.dead = None  # reason why the run was stopped: deadlock, livelock
        self.crashed = False
        self.watch = None  # called at every torch event of the code under test: invariants that hold at all times
        self.fired = {}
        self.fault_sites = set()
        self.blocked_events = 0
        self.main = _thread.allocate_lock()
        self.main.acquire()

    # ------------------------------------------------------------------ life cycle

    def spawn(self, tid, ops, body):
        t = Task(tid, ops)
        self.tasks[tid] = t

        # every task is a thread of its own also to `threading` (a name, an entry in the table of live threads)
        t.pythread = threading.Thread(name=f"task {tid}", daemon=True)

        def run():
            ident = _thread.get_ident()
            t.pythread._ident = ident
            t.pythread._started._flag = True
            threading._active[ident] = t.pythread
            t.lock.acquire()
            self.by_ident[_thread.get_ident()] = t
            last = False
            try:
                if not self.stopped():
                    with Mode(self, t):
                        body(t)
            except (Abandon, Crash):
                pass
            except BaseException as e:  # a failure of the harness itself
                t.harness_error = e
                self.stop("harness: %r" % (e,))
            finally:
                t.done = True
                t.in_op = False
                if threading._active.get(ident) is t.pythread:
                    del threading._active[ident]
                last = self.finish(t)
                if last:
                    self.main.release()

        t.run = run
        return t

    def stopped(self):
        return self.dead is not None or self.crashed

    def stop(self, why):
        if self.dead is None:
            self.dead = why

    def run(self):
        with patched_locks(self):
            try:
                for t in self.tasks.values():
                    _thread.start_new_thread(t.run, ())
                self.install()
                first = self.choose_next(None)
                self.cur = first
                first.lock.release()
                self.main.acquire()
            finally:
                self.uninstall()
        errs = [t.harness_error for t in self.tasks.values() if getattr(t, "harness_error", None)]
        if errs:
            raise errs[0]

    def runnable(self):
        return [t for t in self.tasks.values() if not t.done and t.blocked_on is None]

    def choose_next(self, task):
        """Who runs when the current task cannot (it ended, or waits for a lock)."""
        if self.stopped():
            left = [t for t in self.tasks.values() if not t.done and t is not task]
            return left[0] if left else None
        cand = self.runnable()
        if not cand:
            left = [t for t in self.tasks.values() if not t.done]
            if not left:
                return None
            cand = self.wait_for_others()
        if not cand:
            self.stop("deadlock")
            left = [t for t in left if t is not task] or left
            return left[0]
        i = self.n_handover
        self.n_handover += 1
        if self.record is not None:
            want = self.r_nxt.get((-1 if task is None else task.tid, i))
            pick = next((t for t in cand if t.tid == want), cand[0])
        else:
            pick = self.decide.next(self, cand)
            if pick is not cand[0]:
                self.nxt.append((-1 if task is None else task.tid, i, pick.tid))
        return pick

    def wait_for_others(self):
        """Every task waits: only a thread that the code under test started itself can wake one."""
        mine = {t.pythread for t in self.tasks.values()} | {threading.main_thread(), threading.current_thread()}
        for _ in range(3000):
            if all(t in mine for t in threading.enumerate()):
                break
            time.sleep(0.001)
            if self.runnable():
                break
        return self.runnable()

    def finish(self, t):
        n = self.choose_next(t)
        if n is None:
            return True
        self.cur = n
        n.blocked_on = None
        n.lock.release()
        return False

    def switch(self, task, to):
        self.switches += 1
        self.ileave.update(b"%d>%d@%s;" % (task.tid, to.tid, self.where(task).encode()))
        self.cur = to
        to.lock.release()
        task.lock.acquire()
        if self.stopped():
            raise Abandon()

    def where(self, task):
        return getattr(task, "site", "?")

    # ------------------------------------------------------------------ events

    def begin(self, task, uid):
        task.uid, task.n, task.op_faults = uid, 0, []
        task.in_op = True
        self.event(task, "op", "begin")

    def end(self, task):
        task.in_op = False

    def event(self, task, kind, site):
        """One event of the code under test; may hand the baton to another task."""
        if self.stopped():
            raise Abandon()
        self.steps += 1
        n = task.n
        task.n += 1
        task.site = site
        self.trace.update(f"{task.tid}.{task.uid}.{n}:{kind}:{site};".encode())
        if self.steps > self.cap:
            self.stop("livelock")
            raise Abandon()
        if len(self.tasks) > 1:
            if self.record is not None:
                to = self.r_pre.get((task.uid, n))
            else:
                to = self.decide.preempt(self, task)
            if to is not None and to != task.tid:
                tt = self.tasks.get(to)
                if tt is not None and not tt.done and tt.blocked_on is None:
                    if self.record is None:
                        self.pre.append((task.uid, n, to))
                    self.switch(task, tt)
        return n

    def fault(self, task, n, phase, name):
        if self.record is not None:
            k = self.r_flt.get((task.uid, n, phase))
        else:
            k = self.decide.fault(self, task, n, phase, name)
            if k is not None:
                self.flt.append((task.uid, n, phase, k))
        if k is None:
            return
        task.op_faults.append(k)
        self.fired[k] = self.fired.get(k, 0) + 1
        self.fault_sites.add((k, self.py_site(), name))
        self.trace.update(f"FAULT {k};".encode())
        if k == "oom":
            raise OutOfMemory("[enforce fail at alloc_cpu.cpp] DefaultCPUAllocator: can't allocate memory (simulated)")
        if k == "memerr":
            raise MemoryError("simulated")
        if k == "intr":
            raise KeyboardInterrupt("simulated")
        if k == "crash":
            self.crashed = True
            raise Crash()
        raise AssertionError(k)

    @staticmethod
    def py_site():
        f = sys._getframe(2)
        while f is not None:
            if "/nnj/" in f.f_code.co_filename:
                return f"{f.f_code.co_filename.rsplit('/', 1)[-1]}:{f.f_code.co_name}"
            f = f.f_back
        return "-"

    # ------------------------------------------------------------------ source line / instruction events

    codes = ()

    def install(self):
        if self.gran == "torch" or len(self.tasks) < 2:
            return
        MON.use_tool_id(TOOL, "sim")
        ev = MON.events.INSTRUCTION if self.gran == "instr" else MON.events.LINE
        kern = self

        def cb(code, where):
            t = kern.by_ident.get(_thread.get_ident())
            if t is None or not t.in_op or t is not kern.cur or t.in_kernel:
                return
            t.in_kernel = True
            try:
                kern.event(t, "L", f"{code.co_filename.rsplit('/', 1)[-1]}:{where}")
            finally:
                t.in_kernel = False

        MON.register_callback(TOOL, ev, cb)
        for c in self.codes:
            MON.set_local_events(TOOL, c, ev)
        self._ev = ev

    def uninstall(self):
        if getattr(self, "_ev", None) is None:
            return
        for c in self.codes:
            MON.set_local_events(TOOL, c, 0)
        MON.register_callback(TOOL, self._ev, None)
        MON.free_tool_id(TOOL)
        self._ev = None


Task.in_kernel = False
Task.took_lock = False


class Mode(TorchFunctionMode):
    """Sees every call the code under test makes into torch."""

    def __init__(self, kernel, task):
        super().__init__()
        self.k, self.t = kernel, task

    def __torch_function__(self, func, types, args=(), kwargs=None):
        k, t = self.k, self.t
        if not t.in_op or t.in_kernel:
            return func(*args, **(kwargs or {}))
        name = name_of(func)
        t.in_kernel = True
        try:
            n = k.event(t, "T", name)
            if k.watch is not None:
                k.watch(t)
            if can_oom(name):
                k.fault(t, n, "pre", name)
        finally:
            t.in_kernel = False
        r = func(*args, **(kwargs or {}))
        t.in_kernel = True
        try:
            if k.watch is not None:
                k.watch(t)
            if can_intr(name):
                k.fault(t, n, "post", name)
        finally:
            t.in_kernel = False
        return r


# ---------------------------------------------------------------------- locks of the code under test


CURRENT = [None]


class patched_locks:
    """While the code under test is imported or runs, the locks it makes are simulated ones."""

    def __init__(self, kernel=None):
        self.k = kernel

    def __enter__(self):
        self.old = (threading.Lock, threading.RLock, threading._allocate_lock, CURRENT[0])
        threading.Lock, threading.RLock, threading._allocate_lock = SimLock, SimRLock, SimLock
        if self.k is not None:
            CURRENT[0] = self.k

    def __exit__(self, *a):
        threading.Lock, threading.RLock, threading._allocate_lock, CURRENT[0] = self.old


class SimLock:
    """threading.Lock under the simulator: a task that would block gives the baton away instead.
    Threads that are not tasks of a running simulation get an ordinary lock."""

    def __init__(self):
        self.real = _thread.allocate_lock()

    @staticmethod
    def _task():
        k = CURRENT[0]
        return None if k is None else k.by_ident.get(_thread.get_ident())

    def acquire(self, blocking=True, timeout=-1):
        t = self._task()
        if t is None:
            return self.real.acquire(blocking, timeout)
        k = CURRENT[0]
        while not self.real.acquire(False):
            if not blocking or (timeout is not None and timeout >= 0):
                return False
            t.blocked_on = self
            k.blocked_events += 1
            n = k.choose_next(t)
            if n is t and not k.stopped():  # (released in the meantime by a thread that is not a task)
                t.blocked_on = None
                continue
            if n is None or k.stopped():
                t.blocked_on = None
                raise Abandon()
            k.switch(t, n)
        t.took_lock = True
        return True

    def release(self):
        self.real.release()
        k = CURRENT[0]
        if k is not None:
            for x in k.tasks.values():
                if x.blocked_on is self:
                    x.blocked_on = None

    def locked(self):
        return self.real.locked()

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()


class SimRLock(SimLock):
    def __init__(self):
        super().__init__()
        self.owner, self.count = None, 0

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        if self.owner == me:
            self.count += 1
            return True
        if super().acquire(blocking, timeout):
            self.owner, self.count = me, 1
            return True
        return False

    def release(self):
        if self.owner != _thread.get_ident():
            raise RuntimeError("cannot release un-acquired lock")
        self.count -= 1
        if self.count == 0:
            self.owner = None
            super().release()

    def _is_owned(self):
        return self.owner == _thread.get_ident()

    def _release_save(self):
        c, self.count = self.count, 1
        self.release()
        return c

    def _acquire_restore(self, c):
        self.acquire()
        self.count = c
