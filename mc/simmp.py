"""A controlled multiprocessing: the attributes of the `multiprocessing` module hyperpack
uses are replaced (before hyperpack is imported) by deterministic stand-ins.

Every simulated process is a thread holding a baton; at each operation on a shared object
(scheduling point) the explorer decides who runs next.  Preemptions are bounded, switches
at blocking operations are free.  fork() is a deep copy of the process object in which
shared objects stay shared and connections are duplicated handles; a pipe delivers end of
file when no live process holds its writing end, and blocks a writer whose message exceeds
its capacity until it is read.  A process can be killed, or an exception raised in it, at
any of its points."""
import copy
import multiprocessing
import multiprocessing.connection as mpc
import pickle
import threading

from core import Violation

SIM = None          # the running execution


class Killed(BaseException):
    pass


class Abort(BaseException):
    pass


class Prune(BaseException):
    """This state was reached before with the same remaining bound."""


class Injected(RuntimeError):
    pass


class Deadlock(Violation):
    pass


class _Proc:
    """A simulated process (thread)."""

    def __init__(self, sim, pid, name):
        self.sim, self.pid, self.name = sim, pid, name
        self.gate = threading.Lock()
        self.gate.acquire()
        self.cond = None          # waiting for this to become true
        self.timed = False        # may give up waiting
        self.dead = False
        self.killed = False
        self.exitcode = None
        self.ops = 0
        self.hist = 0             # hash of everything this process has observed
        self.thread = None
        self.delivered = []       # complete messages

    def enabled(self):
        return not self.dead and (self.cond is None or self.cond())


class Sim:
    def __init__(self, choices, preemptions=2, faults=None, capacity=65536, max_ops=5000,
                 visited=None, extra=None):
        self.choices, self.left, self.faults = choices, preemptions, dict(faults or {})
        self.capacity, self.max_ops = capacity, max_ops
        self.procs = [_Proc(self, 0, "MainProcess")]
        self.cur = self.procs[0]
        self.pipes, self.queues, self.shared = [], [], []
        self.visited, self.extra, self.pruned = visited, extra, False
        self.abort = False
        self.deadlock = None
        self.fired = {}           # pid -> (kind, op)
        self.points = 0
        self.trace = []
        self.eval_hook = None

    # ------------------------------------------------------------ scheduling
    def me(self):
        return self.cur

    def fault(self, label):
        """A point of the current process at which it may fail."""
        p = self.cur
        if self.abort and threading.current_thread() is not self.main:
            raise Abort()
        if p.killed:
            raise Killed()
        p.ops += 1
        plan = self.faults.get(p.pid)
        if plan is not None and plan[1] == p.ops and (plan[0], label) != ("raise", "send blocked"):
            self.fired[p.pid] = (plan[0], p.ops, label)
            if plan[0] == "kill":
                p.killed = True
                raise Killed()
            raise Injected("injected at %s" % label)

    def point(self, label, cond=None, timed=False):
        """Scheduling point before an operation; returns False if a timed wait gave up."""
        p = self.cur
        self.fault(label)
        self.points += 1
        if self.points > self.max_ops:
            raise Violation("livelock: more than %d operations" % self.max_ops)
        p.cond, p.timed = cond, timed
        others = [q for q in self.procs if q is not p and q.enabled()]
        mine = p.enabled()
        if mine:
            options = [p] + (others if self.left > 0 else [])
        else:
            options = others
        if not options:
            return self._stuck(p)
        if len(options) > 1:
            self.prune(p)
        # a timed waiter gives up only when nobody else can run
        nxt = options[self.choices.choose(len(options))] if len(options) > 1 else options[0]
        if nxt is not p:
            if mine:
                self.left -= 1
            self.switch(nxt)
        ok = p.cond is None or p.cond()
        p.cond, p.timed = None, False
        return ok

    def prune(self, p):
        """Processes are deterministic: what they observed so far and the contents of the
        shared objects determine all that can follow."""
        if self.visited is None or self.choices.i < len(self.choices.prefix):
            return
        key = (p.pid,
               tuple((q.ops, q.hist, q.dead, q.killed) for q in self.procs),
               tuple(tuple(a._v) for a in self.shared),
               tuple((tuple((m[0], m[1], m[2]) for m in x.msgs), tuple(x.readers), tuple(x.writers))
                     for x in self.pipes),
               tuple((tuple(x.msgs), repr(x.pend)) for x in self.queues),
               self.extra() if self.extra else None)
        key = hash(key)
        if self.visited.get(key, -1) >= self.left:
            self.pruned = self.abort = True
            if p is self.procs[0]:
                raise Prune()
            self.procs[0].gate.release()
            raise Abort()
        self.visited[key] = self.left

    def _stuck(self, p):
        for q in [p] + self.procs:
            if not q.dead and q.timed:
                if q is not p:
                    q.cond = None
                    self.switch(q)
                    ok = p.cond is None or p.cond()
                else:
                    ok = False
                p.cond, p.timed = None, False
                return ok
        self.deadlock = "deadlock: " + ", ".join(
            "%s waits" % q.name for q in self.procs if not q.dead)
        if self.cur is self.procs[0]:
            raise Deadlock(self.deadlock)
        self.abort = True
        self.procs[0].gate.release()
        raise Abort()

    def switch(self, q):
        p = self.cur
        self.cur = q
        self.trace.append(q.pid)
        q.gate.release()
        p.gate.acquire()
        if self.abort:
            if p is self.procs[0] and self.pruned:
                raise Prune()
            if p is self.procs[0]:
                raise Deadlock(self.deadlock or "aborted")
            raise Abort()
        if p.killed:
            raise Killed()

    def leave(self, p):
        """The current process has ended: hand the baton on."""
        p.dead = True
        for pipe in self.pipes:
            pipe.forget(p.pid)
        for q in self.queues:
            q.pend.pop(p.pid, None)
        if self.abort:
            return
        options = [q for q in self.procs if q.enabled()]
        if not options:
            timed = [q for q in self.procs if not q.dead and q.timed]
            if timed:
                options = timed[:1]
                options[0].cond = None
            else:
                self.deadlock = "deadlock: " + ", ".join(
                    "%s waits" % q.name for q in self.procs if not q.dead)
                self.abort = True
                self.procs[0].gate.release()
                return
        if len(options) > 1:
            try:
                self.prune(p)
            except Abort:
                return
        q = options[self.choices.choose(len(options))] if len(options) > 1 else options[0]
        self.cur = q
        self.trace.append(q.pid)
        q.gate.release()

    # ------------------------------------------------------------ life cycle
    def run(self, fn):
        global SIM
        SIM = self
        self.main = threading.current_thread()
        try:
            return fn()
        finally:
            self.abort = True
            for q in self.procs[1:]:
                while q.thread.is_alive():
                    try:
                        q.gate.release()
                    except RuntimeError:
                        pass
                    q.thread.join(0.01)
            SIM = None

    def spawn(self, obj):
        parent = self.cur
        p = _Proc(self, len(self.procs), obj.name)
        p.parent = parent
        self.procs.append(p)
        for pipe in self.pipes:
            pipe.fork(parent.pid, p.pid)
        _Conn._fork_to = p.pid
        try:
            child = copy.deepcopy(obj)
        finally:
            _Conn._fork_to = None
        child._proc = obj._proc = p

        def body():
            p.gate.acquire()
            try:
                if self.abort:
                    raise Abort()
                try:
                    child.run()
                    p.exitcode = 0
                except SystemExit as e:
                    p.exitcode = e.code or 0
                except Exception:
                    p.exitcode = 1
                # queues are flushed at exit
                for q in self.queues:
                    if q.pend.get(p.pid):
                        self.point("flush", lambda: not q.pend.get(p.pid))
            except Killed:
                p.exitcode = -9
            except Violation as e:
                self.deadlock = str(e)
                self.abort = True
                p.dead = True
                self.procs[0].gate.release()
                return
            except Abort:
                p.dead = True
                return
            self.leave(p)

        p.thread = threading.Thread(target=body, daemon=True)
        p.thread.start()
        return p


def pid():
    return SIM.cur.pid if SIM is not None else 0


def point(label, cond=None, timed=False):
    if SIM is not None:
        return SIM.point(label, cond, timed)
    return cond is None or cond()


def saw(v):
    """The current process observes v."""
    if SIM is not None:
        p = SIM.cur
        p.hist = hash((p.hist, v))
    return v


# ---------------------------------------------------------------- shared objects
class _Shared:
    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce__(self):
        raise RuntimeError("shared objects are inherited, not sent")


class Lock(_Shared):
    def __init__(self, *a, **k):
        self.owner, self.depth = None, 0
        self.recursive = True
        if SIM is not None:
            SIM.shared.append(self)

    @property
    def _v(self):
        return [self.owner, self.depth]

    def acquire(self, block=True, timeout=None):
        me = pid()
        free = lambda: self.owner in (None, me) if self.recursive else self.owner is None
        ok = point("acquire", free if block else None, timeout is not None)
        if not ok or not free():
            return saw(False)
        self.owner, self.depth = me, self.depth + 1
        return True

    def release(self):
        self.depth -= 1
        if not self.depth:
            self.owner = None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


class SharedArray(_Shared):
    def __init__(self, typecode, init, lock=True):
        self._v = [0] * init if isinstance(init, int) else list(init)
        self._real = typecode in ("d", "f")
        if self._real:
            self._v = [float(x) for x in self._v]
        self._lock = Lock() if lock else None
        if SIM is not None:
            SIM.shared.append(self)
        self.log = []

    def _guarded(self, label):
        if self._lock:
            self._lock.acquire()
            self._lock.release()
        else:
            point(label)

    def __len__(self):
        return len(self._v)

    def __getitem__(self, i):
        self._guarded("read")
        return saw(self._v[i])

    def __setitem__(self, i, v):
        self._guarded("write")
        self._v[i] = float(v) if self._real else v
        self.log.append((pid(), i, v))

    def __iter__(self):
        for i in range(len(self._v)):
            yield self[i]

    def get_lock(self):
        return self._lock

    def get_obj(self):
        return self

    @property
    def value(self):
        return self[0]

    @value.setter
    def value(self, v):
        self[0] = v


class _Pipe:
    def __init__(self, sim):
        self.msgs = []               # [bytes, complete, writer pid]
        self.readers, self.writers = set(), set()
        self.cap = sim.capacity if sim else 65536
        if sim:
            sim.pipes.append(self)

    def fork(self, parent, child):
        for s in (self.readers, self.writers):
            if parent in s:
                s.add(child)

    def forget(self, p):
        self.readers.discard(p)
        self.writers.discard(p)

    def used(self):
        return sum(len(m[0]) + 4 for m in self.msgs if m[1])

    def readable(self):
        return bool(self.msgs) or not self.writers


class _Conn:
    _fork_to = None

    def __init__(self, pipe, out, back=None):
        self._pipe, self._out, self._back = pipe, out, back
        self._owner = pid()
        self.closed = False
        self._hold(True)

    def _hold(self, on):
        me = self._owner
        for p, s in ((self._pipe, "readers"), (self._out, "writers")):
            if p is not None:
                getattr(p, s).add(me) if on else getattr(p, s).discard(me)

    def __deepcopy__(self, memo):
        c = _Conn.__new__(_Conn)
        c._pipe, c._out, c._back, c.closed = self._pipe, self._out, None, self.closed
        c._owner = _Conn._fork_to if _Conn._fork_to is not None else self._owner
        return c

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def fileno(self):
        return 1000 + id(self) % 1000

    def close(self):
        if not self.closed:
            self.closed = True
            self._hold(False)

    def _ready(self):
        return self._pipe.readable()

    def poll(self, timeout=0.0):
        if timeout == 0.0:
            point("poll", None)
            return saw(self._pipe.readable())
        return saw(point("poll", self._pipe.readable, timeout is not None))

    def send(self, obj):
        self.send_bytes(pickle.dumps(obj))

    def send_bytes(self, data):
        if self.closed or self._out is None:
            raise OSError("handle is closed")
        pipe = self._out
        point("send")
        if not pipe.readers:
            raise BrokenPipeError()
        m = [data, False, pid()]
        if pipe.used() + len(data) + 4 <= pipe.cap:
            m[1] = True
            pipe.msgs.append(m)
        else:
            pipe.msgs.append(m)
            # blocked until the reader has drained it
            point("send blocked", lambda: m[1] or not pipe.readers)
            if not m[1]:
                raise BrokenPipeError()
        if SIM is not None:
            SIM.cur.delivered.append(data)

    def recv(self):
        return pickle.loads(self.recv_bytes())

    def recv_bytes(self):
        if self.closed or self._pipe is None:
            raise OSError("handle is closed")
        pipe = self._pipe
        point("recv", pipe.readable)
        if not pipe.msgs:
            saw("EOF")
            raise EOFError()
        m = pipe.msgs.pop(0)
        if not m[1]:
            if SIM is not None and (SIM.procs[m[2]].dead or SIM.procs[m[2]].killed):
                # the writer died half way
                saw("EOF")
                raise EOFError("got end of file during message")
            m[1] = True
        return saw(m[0])


def Pipe(duplex=True):
    a = _Pipe(SIM)
    if not duplex:
        return _Conn(a, None), _Conn(None, a)
    b = _Pipe(SIM)
    return _Conn(a, b), _Conn(b, a)


class Queue(_Shared):
    def __init__(self, maxsize=0, **k):
        self.msgs, self.pend = [], {}
        self.cap = SIM.capacity if SIM else 65536
        if SIM:
            SIM.queues.append(self)

    def put(self, obj, block=True, timeout=None):
        data = pickle.dumps(obj)
        point("put")
        if sum(map(len, self.msgs)) + len(data) <= self.cap and not self.pend.get(pid()):
            self.msgs.append(data)
            if SIM is not None:
                SIM.cur.delivered.append(data)
        else:
            self.pend.setdefault(pid(), []).append(data)

    put_nowait = put

    def _ready(self):
        return bool(self.msgs) or any(self.pend.values())

    def get(self, block=True, timeout=None):
        import queue
        ok = point("get", self._ready if block else None, timeout is not None)
        if not ok or not self._ready():
            saw('Empty')
            raise queue.Empty()
        if self.msgs:
            return pickle.loads(saw(self.msgs.pop(0)))
        p = sorted(k for k, v in self.pend.items() if v)[0]
        return pickle.loads(saw(self.pend[p].pop(0)))

    def get_nowait(self):
        return self.get(False)

    def empty(self):
        point("empty")
        return saw(not self._ready())

    def qsize(self):
        point("qsize")
        return saw(len(self.msgs) + sum(map(len, self.pend.values())))

    def close(self):
        pass

    join_thread = cancel_join_thread = close


class SimpleQueue(Queue):
    """No feeder thread: put blocks when the pipe is full."""

    def put(self, obj, *a, **k):
        data = pickle.dumps(obj)
        point("put")
        if sum(map(len, self.msgs)) + len(data) <= self.cap:
            self.msgs.append(data)
        else:
            me = pid()
            self.pend.setdefault(me, []).append(data)
            point("put blocked", lambda: not self.pend.get(me))
        if SIM is not None:
            SIM.cur.delivered.append(data)


class Event(_Shared):
    def __init__(self):
        self._f = False
        if SIM is not None:
            SIM.shared.append(self)

    @property
    def _v(self):
        return [self._f]

    def is_set(self):
        point("is_set")
        return saw(self._f)

    def set(self):
        point("set")
        self._f = True

    def clear(self):
        point("clear")
        self._f = False

    def wait(self, timeout=None):
        return saw(point("wait", lambda: self._f, timeout is not None))


class Process:
    _counter = 0

    def __init__(self, group=None, target=None, name=None, args=(), kwargs={}, *, daemon=None):
        Process._counter += 1
        self._target, self._args, self._kwargs = target, args, kwargs
        self.name = name or "Process-%d" % Process._counter
        self.daemon = bool(daemon)
        self._proc = None

    def __deepcopy__(self, memo):
        c = self.__class__.__new__(self.__class__)
        memo[id(self)] = c
        c.__dict__.update({k: v if k == "_proc" else copy.deepcopy(v, memo)
                           for k, v in self.__dict__.items()})
        return c

    def run(self):
        if self._target:
            self._target(*self._args, **self._kwargs)

    def start(self):
        assert self._proc is None, "cannot start a process twice"
        SIM.spawn(self)
        point("start")

    def join(self, timeout=None):
        point("join", lambda: self._proc.dead, timeout is not None)

    def is_alive(self):
        point("is_alive")
        return saw(self._proc is not None and not self._proc.dead)

    @property
    def exitcode(self):
        return saw(self._proc.exitcode if self._proc is not None and self._proc.dead else None)

    @property
    def pid(self):
        return None if self._proc is None else self._proc.pid + 10000

    ident = pid

    @property
    def sentinel(self):
        return self

    def _ready(self):
        return self._proc.dead

    def terminate(self):
        point("terminate")
        if not self._proc.dead:
            self._proc.killed = True
            self._proc.cond = None

    kill = terminate

    def close(self):
        pass


def wait(object_list, timeout=None):
    objs = list(object_list)
    point("wait", lambda: any(o._ready() for o in objs), timeout is not None)
    ready = [i for i, o in enumerate(objs) if o._ready()]
    saw(tuple(ready))
    return [objs[i] for i in ready]


class _Current:
    daemon = False

    @property
    def name(self):
        return SIM.cur.name if SIM is not None else "MainProcess"

    @property
    def pid(self):
        return pid() + 10000


CURRENT = _Current()


def Array(typecode, init, *, lock=True):
    return SharedArray(typecode, init, lock)


def Value(typecode, *args, lock=True):
    return SharedArray(typecode, [args[0] if args else 0], lock)


REPLACED = dict(
    Process=Process, Pipe=Pipe, Array=Array, Value=Value, Queue=Queue,
    JoinableQueue=Queue, SimpleQueue=SimpleQueue, Lock=Lock, RLock=Lock, Event=Event,
    RawArray=lambda t, i: SharedArray(t, i, False),
    RawValue=lambda t, *a: SharedArray(t, [a[0] if a else 0], False),
    current_process=lambda: CURRENT, parent_process=lambda: None,
    active_children=lambda: [],
)


def install():
    """Before hyperpack is imported."""
    for k, v in REPLACED.items():
        setattr(multiprocessing, k, v)
    for k in ("Process", "Pipe", "Queue", "SimpleQueue", "Array", "Lock"):
        pass
    multiprocessing.get_context = lambda *a: multiprocessing
    mpc.wait = wait
    mpc.Pipe = Pipe
    import time
    real_sleep = time.sleep

    def sleep(s):
        if SIM is not None:
            # lets everybody else run first
            SIM.point("sleep", lambda: False, True)
        else:
            real_sleep(s)
    time.sleep = sleep
