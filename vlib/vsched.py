"""A controlled scheduler: virtual threads, processes, pipes and a virtual clock for stateless exploration of real code.

Exactly one virtual thread runs at a time. Control changes hands only at scheduling points (every synchronisation
operation, and every line or bytecode of the code under test executed in the main process). Which thread goes on is
read from a list of choices; beyond its end the default is taken. Time stands still while any thread can run.
"""
import copy
import os as _os
import pickle
import sys
import threading
import types

CAPACITY = 65536


class Killed(BaseException):
    """unwinds a virtual thread whose process is gone"""


class Unsupported(Exception):
    """the code under test uses something this scheduler does not model"""


class Diverged(Exception):
    """a recorded choice does not exist any more"""


class VThread:
    def __init__(self, sched, proc, fun, name):
        self.sched, self.proc, self.fun, self.name = sched, proc, fun, name
        self.tid = len(sched.threads)
        self.sem = threading.Semaphore(0)
        self.pred, self.deadline, self.done, self.exc = None, None, False, None
        self.traced = False
        self.real = threading.Thread(target=self._main, daemon=True)
        sched.threads.append(self)
        self.real.start()

    def enabled(self):
        if self.done or (self.proc.dead and not self.proc.kernel):
            return False
        if self.pred is None:
            return True
        return self.pred() or (self.deadline is not None and self.deadline <= self.sched.now)

    def _main(self):
        self.sem.acquire()
        try:
            if not self.sched.over and not self.proc.dead:
                if self.traced and self.sched.trace_file:
                    sys.settrace(self.sched.tracer)
                self.fun()
        except Killed:
            pass
        except BaseException as exc:  # pylint: disable=broad-except
            self.exc = exc
            self.sched.note_exception(self, exc)
        finally:
            sys.settrace(None)
            self.done = True
            self.sched.thread_ended(self)


class VProc:
    def __init__(self, sched, kernel=False):
        self.sched, self.dead, self.kernel, self.exitcode = sched, False, kernel, None
        self.pid = 10 ** 8 + len(sched.procs)
        self.feeding = []
        self.mortal = False
        sched.procs.append(self)

    def die(self, code):
        if self.dead:
            return
        self.dead, self.exitcode = True, code
        for pipe in self.sched.pipes:
            pipe.writers.discard(self)
            pipe.readers.discard(self)
        self.sched.event("end", self.pid, code)


class Sched:
    def __init__(self, choices=(), horizon=20000, policy="low", trace_file=None, opcodes=False, kill_budget=0):
        self.threads, self.procs, self.pipes, self.events = [], [], [], []
        self.now, self.over, self.outcome = 0.0, False, None
        self.choices, self.points, self.taken = list(choices), [], []
        self.horizon, self.steps, self.policy = horizon, 0, policy
        self.trace_file, self.opcodes = trace_file, opcodes
        self.kill_budget = kill_budget
        self.current = None
        self.finished = threading.Event()
        self.errors = []
        self.unsupported = None
        self.kernel = VProc(self, kernel=True)
        self.main = VProc(self)

    # -- running -----------------------------------------------------------------------------------------------
    def run(self, fun):
        def body():
            self.result = fun()
            self.outcome = self.outcome or "finished"
        th = self.spawn(self.main, body, "main")
        th.traced = True
        self.main_thread = th
        self.current = th
        th.sem.release()
        if not self.finished.wait(120):
            self.outcome = "stuck outside the scheduler"
        self.over = True
        for t in self.threads:
            if not t.done:
                t.sem.release()
        for t in self.threads:
            t.real.join(5)
        return self.outcome

    def spawn(self, proc, fun, name):
        th = VThread(self, proc, fun, name)
        return th

    def note_exception(self, th, exc):
        if isinstance(exc, (Unsupported, Diverged)):
            self.unsupported = exc
            self.stop("unsupported")
        else:
            self.errors.append((th.name, th.proc.pid, exc))

    def stop(self, why):
        if not self.over:
            self.outcome = self.outcome or why
            self.over = True
            self.finished.set()

    def thread_ended(self, th):
        if self.over:
            self.finished.set()
            return
        if th is self.main_thread:
            self.outcome = self.outcome or "raised"
            self.over = True
            self.finished.set()
            return
        try:
            nxt = self.pick(None)
        except (Unsupported, Diverged) as exc:
            self.unsupported = exc
            self.stop("unsupported")
            return
        if nxt is not None:
            self.current = nxt
            nxt.sem.release()

    def order(self, running):
        en = [t for t in self.threads if t.enabled()]
        if self.policy == "high":
            en.reverse()
        if running is not None and running in en:
            en.remove(running)
            en.insert(0, running)
        return en

    def pick(self, running):
        """the next thread, or None when the run is over"""
        while True:
            self.steps += 1
            if self.steps > self.horizon:
                self.stop("livelock")
                return None
            en = self.order(running)
            kills = []
            if self.kill_budget > 0:
                kills = [p for p in self.procs if p.mortal and not p.dead]
            if not en:
                times = [t.deadline for t in self.threads if not t.done and not (t.proc.dead and not t.proc.kernel) and t.pred is not None
                         and t.deadline is not None and t.deadline > self.now]
                if not times:
                    self.stop("deadlock")
                    return None
                en = [("time", min(times))]
            menu = en + [("kill", p) for p in kills]
            c = 0
            if len(menu) > 1:
                k = len(self.points)
                if k < len(self.choices):
                    c = self.choices[k]
                    if c >= len(menu):
                        raise Diverged(f"choice {c} of {len(menu)} at point {k}")
                self.points.append(len(menu))
                self.taken.append(c)
            what = menu[c]
            if isinstance(what, tuple) and what[0] == "time":
                self.now = what[1]
                continue
            if isinstance(what, tuple):
                self.kill_budget -= 1
                what[1].die(-9)
                self.event("fault", what[1].pid)
                continue
            return what

    def point(self):
        me = self.current
        if self.over or (me.proc.dead and not me.proc.kernel):
            raise Killed()
        self._switch(me)

    def _switch(self, me):
        nxt = self.pick(me)
        if nxt is not me:
            if nxt is not None:
                self.current = nxt
                nxt.sem.release()
            me.sem.acquire()
        if self.over or (me.proc.dead and not me.proc.kernel):
            raise Killed()
        self.current = me

    def wait_until(self, pred, timeout=None):
        """a blocking operation; False on time-out"""
        me = self.current
        if self.over or (me.proc.dead and not me.proc.kernel):
            raise Killed()
        me.pred = pred
        me.deadline = None if timeout is None else self.now + max(0.0, timeout)
        try:
            self._switch(me)
            return bool(pred())
        finally:
            me.pred = me.deadline = None

    def sleep(self, seconds):
        self.wait_until(lambda: False, seconds)

    def event(self, *what):
        self.events.append((self.now,) + what)

    def tracer(self, frame, _event, _arg):
        if frame.f_code.co_filename != self.trace_file:
            return None
        if self.opcodes:
            frame.f_trace_opcodes = True
            frame.f_trace_lines = False
            return self.tracer_op
        return self.tracer_line

    def tracer_line(self, _frame, event, _arg):
        if event == "line":
            self.point()
        return self.tracer_line

    def tracer_op(self, _frame, event, _arg):
        if event == "opcode":
            self.point()
        return self.tracer_op


class Shared:
    """kernel objects are the same object on both sides of a fork"""

    def __deepcopy__(self, _memo):
        return self

    def __copy__(self):
        return self


def make_modules(s):
    """stand-ins for threading, multiprocessing, multiprocessing.connection, queue, time and os bound to scheduler s"""

    class Lock(Shared):
        recursive = False

        def __init__(self, *_a, **_k):
            self.owner, self.count = None, 0

        def acquire(self, blocking=True, timeout=-1, block=None):
            if block is not None:
                blocking = block
            if timeout is None:
                timeout = -1
            s.point()
            me = s.current
            if self.owner is not None and self.recursive and self.owner is me:
                self.count += 1
                return True
            if self.owner is not None:
                if not blocking:
                    return False
                if not s.wait_until(lambda: self.owner is None, None if timeout < 0 else timeout):
                    return False
            self.owner, self.count = me, 1
            return True

        def release(self):
            s.point()
            if self.owner is None:
                raise RuntimeError("release unlocked lock")
            self.count -= 1
            if self.count == 0:
                self.owner = None

        def locked(self):
            s.point()
            return self.owner is not None

        def __enter__(self):
            self.acquire()
            return True

        def __exit__(self, *_a):
            self.release()

    class RLock(Lock):
        recursive = True

    class Semaphore(Shared):
        def __init__(self, value=1):
            self.value = value

        def acquire(self, blocking=True, timeout=None, block=None):
            if block is not None:
                blocking = block
            s.point()
            if self.value <= 0:
                if not blocking or not s.wait_until(lambda: self.value > 0, timeout):
                    return False
            self.value -= 1
            return True

        def release(self, n=1):
            s.point()
            self.value += n

        def __enter__(self):
            self.acquire()
            return True

        def __exit__(self, *_a):
            self.release()

    class Event(Shared):
        def __init__(self):
            self.flag = False

        def set(self):
            s.point()
            self.flag = True

        def clear(self):
            s.point()
            self.flag = False

        def is_set(self):
            s.point()
            return self.flag

        def wait(self, timeout=None):
            s.point()
            return self.flag or s.wait_until(lambda: self.flag, timeout)

    class Condition(Shared):
        def __init__(self, lock=None):
            self.lock = lock or RLock()
            self.waiters = []
            self.acquire, self.release = self.lock.acquire, self.lock.release

        def __enter__(self):
            return self.lock.__enter__()

        def __exit__(self, *a):
            return self.lock.__exit__(*a)

        def wait(self, timeout=None):
            ticket = [False]
            self.waiters.append(ticket)
            owner, count = self.lock.owner, self.lock.count
            self.lock.owner, self.lock.count = None, 0
            ok = s.wait_until(lambda: ticket[0], timeout)
            if ticket in self.waiters:
                self.waiters.remove(ticket)
            s.wait_until(lambda: self.lock.owner is None)
            self.lock.owner, self.lock.count = owner, count
            return ok

        def wait_for(self, predicate, timeout=None):
            end = None if timeout is None else s.now + timeout
            while not predicate():
                if end is not None and s.now >= end:
                    return predicate()
                self.wait(None if end is None else end - s.now)
            return True

        def notify(self, n=1):
            s.point()
            for ticket in self.waiters[:n]:
                ticket[0] = True
            del self.waiters[:n]

        def notify_all(self):
            self.notify(len(self.waiters))

    class Thread(Shared):
        count = 0

        def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, *, daemon=None):
            _ = group
            self.target, self.args, self.kwargs, self.daemon = target, args, kwargs or {}, daemon
            Thread.count += 1
            self.name = name or f"Thread-{Thread.count}"
            self.vth = None

        def run(self):
            if self.target:
                self.target(*self.args, **self.kwargs)

        def start(self):
            s.point()
            if self.vth is not None:
                raise RuntimeError("threads can only be started once")
            self.vth = s.spawn(s.current.proc, self.run, self.name)
            self.vth.traced = s.current.proc is s.main

        def join(self, timeout=None):
            s.point()
            if not self.vth.done:
                s.wait_until(lambda: self.vth.done, timeout)

        def is_alive(self):
            s.point()
            return self.vth is not None and not self.vth.done

        @property
        def ident(self):
            return None if self.vth is None else self.vth.tid

    class Pipe_(Shared):
        def __init__(self):
            self.chunks, self.used = [], 0
            self.writers, self.readers = {s.current.proc}, {s.current.proc}
            s.pipes.append(self)

    class Connection(Shared):
        def __init__(self, pipe, reading):
            self.pipe, self.reading, self.closed = pipe, reading, False
            self.closed_in = set()

        def check(self):
            if s.current.proc in self.closed_in:
                raise OSError("handle is closed")

        def ready(self):
            return bool(self.pipe.chunks) or not self.pipe.writers

        def fileno(self):
            return id(self)

        def close(self):
            s.point()
            self.closed_in.add(s.current.proc)
            (self.pipe.readers if self.reading else self.pipe.writers).discard(s.current.proc)

        def poll(self, timeout=0.0):
            self.check()
            s.point()
            if self.ready():
                return True
            if timeout is None or timeout > 0:
                return s.wait_until(self.ready, timeout)
            return False

        def send(self, obj):
            self.send_bytes(pickle.dumps(obj))

        def send_bytes(self, data):
            self.check()
            data = len(data).to_bytes(4, "big") + bytes(data)
            pipe = self.pipe
            while data:
                s.point()
                if not pipe.readers:
                    raise BrokenPipeError("no reader")
                room = CAPACITY - pipe.used
                if room <= 0:
                    s.wait_until(lambda: CAPACITY - pipe.used > 0 or not pipe.readers)
                    continue
                part, data = data[:room], data[room:]
                pipe.chunks.append(part)
                pipe.used += len(part)

        def _read(self, n, inside=False):
            out = b""
            pipe = self.pipe
            while len(out) < n:
                s.point()
                if not pipe.chunks:
                    if not pipe.writers:
                        if out or inside:
                            raise OSError("got end of file during message")
                        raise EOFError()
                    s.wait_until(self.ready)
                    continue
                part = pipe.chunks[0]
                take = part[: n - len(out)]
                if len(take) < len(part):
                    pipe.chunks[0] = part[len(take):]
                else:
                    pipe.chunks.pop(0)
                pipe.used -= len(take)
                out += take
            return out

        def recv_bytes(self):
            self.check()
            return self._read(int.from_bytes(self._read(4), "big"), True)

        def recv(self):
            return pickle.loads(self.recv_bytes())

        def __enter__(self):
            return self

        def __exit__(self, *_a):
            self.close()

    def pipe(duplex=True):
        if duplex:
            raise Unsupported("duplex pipe")
        p = Pipe_()
        return Connection(p, True), Connection(p, False)

    from queue import Empty, Full

    class MPQueue(Shared):
        def __init__(self, maxsize=0):
            self._reader, self._writer = pipe(False)
            self.buffers, self.feeders = {}, {}
            self.maxsize = maxsize
            self.nojoin = False

        def put(self, obj, block=True, timeout=None):
            _ = block, timeout
            s.point()
            proc = s.current.proc
            self._writer.check()
            buf = self.buffers.setdefault(proc, [])
            buf.append(obj)
            if proc not in self.feeders:
                def feed():
                    while True:
                        s.wait_until(lambda: bool(buf))
                        item = buf[0]
                        try:
                            data = pickle.dumps(item)
                        except Exception as exc:  # pylint: disable=broad-except
                            s.event("unpicklable", proc.pid, str(exc))
                        else:
                            try:
                                self._writer.send_bytes(data)
                            except (BrokenPipeError, OSError):
                                pass
                        buf.pop(0)
                self.feeders[proc] = s.spawn(proc, feed, "feeder")
                proc.feeding.append(lambda: self.nojoin or not buf)

        def put_nowait(self, obj):
            self.put(obj, False)

        def get(self, block=True, timeout=None):
            if block and timeout is None:
                return self._reader.recv()
            if not self._reader.poll(timeout if block else 0.0):
                raise Empty
            return self._reader.recv()

        def get_nowait(self):
            return self.get(False)

        def empty(self):
            return not self._reader.poll()

        def qsize(self):
            raise Unsupported("qsize")

        def close(self):
            self._reader.close()

        def join_thread(self):
            proc = s.current.proc
            s.wait_until(lambda: not self.buffers.get(proc))

        def cancel_join_thread(self):
            self.nojoin = True

    class SimpleQueue(Shared):
        def __init__(self):
            self._reader, self._writer = pipe(False)

        def put(self, obj):
            self._writer.send(obj)

        def get(self):
            return self._reader.recv()

        def empty(self):
            return not self._reader.poll()

        def close(self):
            self._reader.close()
            self._writer.close()

    class Process(Shared):
        def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, *, daemon=None):
            _ = group
            self.target, self.args, self.kwargs, self.daemon, self.name = target, args, kwargs or {}, daemon, name or "Process"
            self.proc = None

        def run(self):
            if self.target:
                self.target(*self.args, **self.kwargs)

        def start(self):
            s.point()
            hook = getattr(s, "on_start", None)
            if hook:
                hook(self)
            if self.proc is not None:
                raise AssertionError("cannot start a process twice")
            parent = s.current.proc
            proc = self.proc = VProc(s)
            for p in s.pipes:
                for side in (p.writers, p.readers):
                    if parent in side:
                        side.add(proc)
            try:
                args, kwargs = copy.deepcopy((self.args, self.kwargs))
            except Exception:  # pylint: disable=broad-except
                args, kwargs = self.args, self.kwargs
            self.args, self.kwargs = args, kwargs
            s.event("start", proc.pid)

            def body():
                code = 0
                try:
                    self.run()
                except Killed:
                    raise
                except Unsupported:
                    raise
                except SystemExit as exc:
                    code = exc.code or 0
                except BaseException as exc:  # pylint: disable=broad-except
                    code = 1
                    s.event("child-exception", proc.pid, repr(exc))
                s.wait_until(lambda: all(f() for f in proc.feeding))
                proc.die(code)
            s.spawn(proc, body, "process")

        def join(self, timeout=None):
            s.point()
            if not self.proc.dead:
                s.wait_until(lambda: self.proc.dead, timeout)

        def is_alive(self):
            s.point()
            return self.proc is not None and not self.proc.dead

        def kill(self):
            s.point()
            proc = self.proc
            if proc is None:
                raise AttributeError("not started")

            def death():
                proc.die(-9)
            s.spawn(s.kernel, death, "kill")

        terminate = kill

        def close(self):
            if self.proc is not None and not self.proc.dead:
                raise ValueError("still running")

        @property
        def exitcode(self):
            s.point()
            return self.proc.exitcode if self.proc is not None and self.proc.dead else None

        @property
        def pid(self):
            return None if self.proc is None else self.proc.pid

        @property
        def sentinel(self):
            return Sentinel(self.proc)

    class Sentinel(Shared):
        def __init__(self, proc):
            self.proc = proc

        def ready(self):
            return self.proc.dead

        def __eq__(self, other):
            return isinstance(other, Sentinel) and other.proc is self.proc

        def __hash__(self):
            return hash(self.proc)

    def wait(object_list, timeout=None):
        objs = list(object_list)
        if not all(hasattr(o, "ready") for o in objs):
            raise Unsupported("wait for something else")
        s.point()
        if not any(o.ready() for o in objs):
            if timeout is not None and timeout <= 0:
                return []
            s.wait_until(lambda: any(o.ready() for o in objs), timeout)
        return [o for o in objs if o.ready()]

    class TQueue(Shared):
        kind = "fifo"

        def __init__(self, maxsize=0):
            self.items, self.maxsize, self.unfinished = [], maxsize, 0

        def put(self, item, block=True, timeout=None):
            s.point()
            if self.maxsize > 0 and len(self.items) >= self.maxsize:
                if not block or not s.wait_until(lambda: len(self.items) < self.maxsize, timeout):
                    raise Full
            self.items.append(item)
            self.unfinished += 1

        def get(self, block=True, timeout=None):
            s.point()
            if not self.items and (not block or not s.wait_until(lambda: bool(self.items), timeout)):
                raise Empty
            return self.items.pop(0 if self.kind == "fifo" else -1)

        def put_nowait(self, item):
            self.put(item, False)

        def get_nowait(self):
            return self.get(False)

        def empty(self):
            s.point()
            return not self.items

        def qsize(self):
            s.point()
            return len(self.items)

        def task_done(self):
            s.point()
            self.unfinished -= 1

        def join(self):
            s.wait_until(lambda: self.unfinished <= 0)

    def module(name, **attrs):
        mod = types.ModuleType(name)

        def missing(attr):
            if attr.startswith("__"):
                raise AttributeError(attr)
            raise Unsupported(f"{name}.{attr}")
        mod.__getattr__ = missing
        for k, v in attrs.items():
            setattr(mod, k, v)
        return mod

    sync = dict(Lock=Lock, RLock=RLock, Semaphore=Semaphore, BoundedSemaphore=Semaphore, Event=Event, Condition=Condition)
    thr = module("threading", Thread=Thread, ThreadError=RuntimeError, get_ident=lambda: s.current.tid, TIMEOUT_MAX=1e9, **sync)
    conn = module("multiprocessing.connection", wait=wait, Connection=Connection, Pipe=pipe)
    mpq = module("multiprocessing.queues", Queue=MPQueue, SimpleQueue=SimpleQueue, Empty=Empty, Full=Full)
    mp = module("multiprocessing", Process=Process, Queue=MPQueue, SimpleQueue=SimpleQueue, Pipe=pipe, connection=conn, queues=mpq,
                cpu_count=lambda: 4, TimeoutError=TimeoutError, **sync)
    mp.get_context = lambda *_a: mp
    que = module("queue", Empty=Empty, Full=Full, Queue=TQueue, SimpleQueue=TQueue, LifoQueue=type("LifoQueue", (TQueue,), {"kind": "lifo"}))
    tim = module("time", sleep=s.sleep, time=lambda: s.now + 1e9, monotonic=lambda: s.now, perf_counter=lambda: s.now)

    def fake_kill(pid, _sig):
        for p in s.procs:
            if p.pid == pid:
                s.point()
                s.spawn(s.kernel, lambda: p.die(-9), "kill")
                return
        raise ProcessLookupError(pid)
    fos = types.ModuleType("os")
    fos.__getattr__ = lambda attr: getattr(_os, attr)
    fos.kill = fake_kill
    return {"threading": thr, "multiprocessing": mp, "multiprocessing.connection": conn, "multiprocessing.queues": mpq, "queue": que, "time": tim, "os": fos}


HARMLESS = {"abc", "collections", "contextlib", "copy", "dataclasses", "enum", "functools", "itertools", "logging", "math", "operator", "typing",
            "types", "warnings", "traceback", "signal", "sys", "__future__", "errno", "numpy", "pickle"}


def load(path, package, mods):
    """execute a source file with the stand-in modules"""
    import builtins

    def imp(name, globals=None, locals=None, fromlist=(), level=0):  # pylint: disable=redefined-builtin
        if level == 0:
            if name in mods:
                if fromlist:
                    return mods[name]
                return mods[name.split(".")[0]]
            if name.split(".")[0] not in HARMLESS:
                raise Unsupported("import " + name)
        return builtins.__import__(name, globals, locals, fromlist, level)

    with open(path, encoding="utf-8") as fh:
        src = fh.read()
    ns = dict(vars(builtins))
    ns["__import__"] = imp
    mod = types.ModuleType(package + "._vsched_copy")
    mod.__dict__.update({"__builtins__": ns, "__package__": package, "__file__": path})
    exec(_code(src, path), mod.__dict__)  # pylint: disable=exec-used
    return mod


_CODE = {}


def _code(src, path):
    if (src, path) not in _CODE:
        _CODE[(src, path)] = compile(src, path, "exec")
    return _CODE[(src, path)]


def explore(run, bound, limit):
    """every execution with at most `bound` deviations from the default choice; run(choices) -> Sched.
    Yields the schedulers; stops (returning False) after `limit` executions."""
    stack = [((), 0)]
    n = 0
    while stack:
        prefix, cost = stack.pop()
        s = run(list(prefix))
        n += 1
        yield s
        if n >= limit:
            return
        if cost < bound:
            for i in range(len(s.points) - 1, len(prefix) - 1, -1):
                for alt in range(1, s.points[i]):
                    stack.append((tuple(s.taken[:i]) + (alt,), cost + 1))
