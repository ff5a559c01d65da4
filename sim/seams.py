"""The seams: process pools, executors, processors, start failures and clocks
of the code under test are replaced by simulated ones before it is imported.

Workers are real forked processes with real memory of their own, but they
do nothing except when the simulator commands them, one at a time, and
everything that decides the outcome (who takes the next task, when a result
arrives, who dies and when, what the clock says) is in the scenario."""
import ast
import concurrent.futures as cf
import concurrent.futures.process as cfp
import concurrent.futures.thread as cft
import itertools
import multiprocessing
import multiprocessing.pool as mpp
import os
import pickle
import signal
import socket
import struct
import sys
import time
import traceback
from multiprocessing.reduction import ForkingPickler

REAL = {}
CURRENT = None      # the active world (in the calling process)
WORKER = None       # what a worker process knows about its current task
OBS = []            # observations made by user-side code in this process
SUT_DIR = os.sep + 'pvfactors' + os.sep
TEST_DIR = os.sep + 'tests' + os.sep


# -------------------------------------------------------------- line faults

_PROTECTED = {}


def protected(filename, line):
    """Lines where an exception cannot be defended against by any code: in
    handlers and clean-up blocks, at the heads of try and with statements
    (between acquiring and protecting, and between the last line of a with
    block and its end)."""
    if filename not in _PROTECTED:
        bad = set()
        try:
            with open(filename) as f:
                tree = ast.parse(f.read())
        except (OSError, SyntaxError, ValueError):
            tree = None
        for node in ast.walk(tree) if tree is not None else ():
            if isinstance(node, ast.Try):
                bad.add(node.lineno)
                for part in (node.finalbody, node.handlers):
                    for s in part:
                        bad.update(range(s.lineno, s.end_lineno + 1))
            elif isinstance(node, ast.With):
                bad.update(range(node.lineno, node.body[0].lineno))
                bad.add(node.lineno)
        _PROTECTED[filename] = bad
    return line in _PROTECTED[filename]


class LineTrap(object):
    """Calls action() at the k-th line executed inside the code under
    test (1 is the first), or at the next one where code can be expected to
    cope with an exception."""

    def __init__(self, k, action, codes=None):
        self.k = k
        self.action = action
        self.n = 0
        self.where = None
        self.fired = False

    def _global(self, frame, event, arg):
        if SUT_DIR in frame.f_code.co_filename:
            return self._local
        return None

    def _local(self, frame, event, arg):
        if event == 'line':
            self.n += 1
            if self.n >= self.k > 0 and not self.fired and not protected(
                    frame.f_code.co_filename, frame.f_lineno):
                self.fired = True
                self.where = '%s:%s' % (
                    frame.f_code.co_filename.split(SUT_DIR)[-1],
                    frame.f_code.co_name)
                sys.settrace(None)
                self.action()
        return self._local

    def __enter__(self):
        sys.settrace(self._global)
        return self

    def __exit__(self, *a):
        sys.settrace(None)
        return False


class AllocationTrap(object):
    """The k-th call of a numpy function from the code under test (1 is the
    first) fails for lack of memory."""

    NAMES = ('zeros', 'ones', 'tile', 'array', 'einsum', 'stack', 'vstack',
             'hstack', 'where', 'empty', 'concatenate', 'linspace',
             'moveaxis', 'asarray', 'full', 'copy', 'zeros_like',
             'ones_like', 'full_like', 'cos', 'sin', 'tan', 'sum', 'dot',
             'nansum', 'minimum', 'maximum', 'clip', 'broadcast_to')

    def __init__(self, k, exc=MemoryError):
        self.k = k
        self.exc = exc
        self.n = 0
        self.where = None
        self.fired = False

    def _wrap(self, fn):
        def call(*a, **kw):
            f = sys._getframe(1)
            name = f.f_code.co_filename
            if SUT_DIR in name and not self.fired:
                self.n += 1
                if self.n >= self.k > 0 and not protected(name, f.f_lineno):
                    self.fired = True
                    self.where = '%s:%s' % (name.split(SUT_DIR)[-1],
                                            f.f_code.co_name)
                    raise self.exc('Unable to allocate (injected)')
            return fn(*a, **kw)
        return call

    def __enter__(self):
        import numpy as np
        self.old = [(np, n, getattr(np, n)) for n in self.NAMES]
        self.old.append((np.linalg, 'inv', np.linalg.inv))
        self.old.append((np.linalg, 'solve', np.linalg.solve))
        for mod, n, fn in self.old:
            setattr(mod, n, self._wrap(fn))
        return self

    def __exit__(self, *a):
        for mod, n, fn in self.old:
            setattr(mod, n, fn)
        return False


def trap_at(lines, fault, at, even, exc):
    """The trap for a fault ('line' or 'alloc') at a place in [0, 1)."""
    if fault == 'alloc':
        return AllocationTrap(1 + int(at * lines[2]), exc)

    def boom():
        raise exc('injected')
    return LineTrap(line_at(lines, at, even), boom)


_MUTABLE = (dict, list, set, bytearray)
_PLAIN = (str, bytes, int, float, complex, bool, tuple, frozenset,
          type(None))


def _is_state(obj):
    """Could code leave something behind in this module-level object?"""
    import types
    if isinstance(obj, _PLAIN + (types.ModuleType, type,
                                 types.BuiltinFunctionType)):
        return False
    if isinstance(obj, types.FunctionType):
        return bool(vars(obj))
    return True


def _class_state(cls):
    """Names of data that a class keeps for all its instances."""
    out = set()
    for c in cls.__mro__:
        if SUT_DIR not in (getattr(sys.modules.get(c.__module__),
                                   '__file__', None) or ''):
            continue
        for k, v in vars(c).items():
            if not k.startswith('__') and not callable(v) and not \
                    hasattr(v, '__get__'):
                out.add(k)
    return out


class Profiler(LineTrap):
    """Which lines, counted as LineTrap counts them, belong to which
    function, which touch what is shared by all in the process, and which
    set something that lasts. Only used to choose places for switches and
    faults."""

    def __init__(self):
        LineTrap.__init__(self, -1, None)
        self.fns = {}
        self.known = {}
        self.before = {}
        self.info = {}
        self.shared = {}
        self.state = {}

    def _special(self, frame):
        """Line numbers of the function that touch shared things, and that
        set things."""
        import dis
        c = frame.f_code
        me = frame.f_locals.get('self')
        cls = type(me) if me is not None else frame.f_locals.get('cls')
        key = c, cls
        if key in self.known:
            return self.known[key]
        kept = _class_state(cls) if isinstance(cls, type) else ()
        shared, state = set(), set()
        line, last_global = None, False
        for ins in dis.get_instructions(c):
            if ins.starts_line is not None:
                line = ins.starts_line
            op = ins.opname
            if op in ('STORE_GLOBAL', 'DELETE_GLOBAL') or (
                    op in ('LOAD_GLOBAL', 'LOAD_NAME') and _is_state(
                        frame.f_globals.get(ins.argval))):
                shared.add(line)
            elif op in ('LOAD_ATTR', 'STORE_ATTR', 'LOAD_METHOD') \
                    and ins.argval in kept:
                shared.add(line)
            elif op in ('STORE_ATTR', 'DELETE_ATTR'):
                (shared if last_global else state).add(line)
            elif op in ('LOAD_DEREF', 'LOAD_CLOSURE'):
                v = frame.f_locals.get(ins.argval)
                if isinstance(v, _MUTABLE):
                    shared.add(line)
            elif op in ('STORE_SUBSCR', 'DELETE_SUBSCR'):
                state.add(line)
            last_global = op == 'LOAD_GLOBAL' or (
                op == 'LOAD_FAST' and ins.argval == 'cls')
        self.known[key] = shared, state
        return self.known[key]

    def _local(self, frame, event, arg):
        if event == 'line':
            self.n += 1
            c = frame.f_code
            mine = self.fns.setdefault(
                (c.co_filename, c.co_name, c.co_firstlineno), [])
            if len(mine) < 300:
                mine.append(self.n)
            if id(frame) not in self.info:
                self.info[id(frame)] = self._special(frame)
            shared, state = self.info[id(frame)]
            was = self.before.get(id(frame))
            for lines, out in ((shared, self.shared), (state, self.state)):
                if frame.f_lineno in lines or was in lines:
                    at = out.setdefault((c.co_filename, c.co_firstlineno,
                                         frame.f_lineno), [])
                    if len(at) < 100:
                        at.append(self.n)
            self.before[id(frame)] = frame.f_lineno
        elif event == 'return':
            self.before.pop(id(frame), None)
            self.info.pop(id(frame), None)
        return self._local


def count_lines(fn):
    """Lines of the code under test that fn executes: how many in all,
    which belong to which function, how many numpy calls, and which lines
    touch shared or lasting things."""
    prof, alloc = Profiler(), AllocationTrap(-1)
    with alloc, prof:
        fn()
    return [prof.n, list(prof.fns.values()), alloc.n,
            list(prof.shared.values()),
            list(prof.state.values()) + list(prof.shared.values())]


PLACES = (True, True, True, True, False, False, False, 'state', 'state',
          'shared')


def line_at(lines, at, even=False):
    """A line, from a number in [0, 1): any line with the same chance, or
    any function with the same chance (True), or a line that touches what
    the process shares ('shared') or sets what lasts ('state')."""
    total, fns = lines[:2]
    if even in ('shared', 'state') and len(lines) > 4:
        fns = lines[3 if even == 'shared' else 4] or fns
    if not even or not fns:
        return 1 + int(at * total)
    f = min(int(at * len(fns)), len(fns) - 1)
    rest = at * len(fns) - f
    return fns[f][min(int(rest * len(fns[f])), len(fns[f]) - 1)]


# ----------------------------------------------------------------- messages

def _send(sock, obj):
    data = pickle.dumps(obj)
    sock.sendall(struct.pack('>I', len(data)) + data)


def _recv_n(sock, n):
    buf = b''
    while len(buf) < n:
        try:
            part = sock.recv(n - len(buf))
        except OSError:
            return None
        if not part:
            return None
        buf += part
    return buf


def _recv(sock):
    head = _recv_n(sock, 4)
    if head is None:
        return None
    body = _recv_n(sock, struct.unpack('>I', head)[0])
    return None if body is None else pickle.loads(body)


# ------------------------------------------------------------ worker process

class RemoteTraceback(Exception):
    def __init__(self, tb):
        self.tb = tb

    def __str__(self):
        return self.tb


def _rebuild_exc(exc, tb):
    exc.__cause__ = RemoteTraceback(tb)
    return exc


class _ExcWithTb(object):
    """What the standard pools send for an exception."""

    def __init__(self, exc, tb):
        self.exc = exc
        self.tb = tb
        self.exc.__traceback__ = None

    def __reduce__(self):
        return _rebuild_exc, (self.exc, self.tb)


def _worker_loop(sock, number):
    global CURRENT, WORKER
    CURRENT = None
    del OBS[:]
    signal.signal(signal.SIGINT, signal.SIG_DFL)
    while True:
        msg = _recv(sock)
        if msg is None or msg[0] == 'stop':
            os._exit(0)
        if msg[0] == 'init':
            _, blob = msg
            try:
                fn, args = pickle.loads(blob)
                if fn is not None:
                    fn(*args)
                _send(sock, ('ready',))
            except BaseException:  # noqa
                os._exit(1)
            continue
        _, blob, fault, catch_base = msg
        del OBS[:]
        fault = dict(fault or {})
        WORKER = {'number': number, 'fault': fault}
        kind = fault.get('kind')
        try:
            call = pickle.loads(blob)
        except BaseException:  # noqa
            os._exit(1)
        if kind == 'kill_before':
            os._exit(9)
        trap = None
        try:
            fn, a, k = call
            if kind == 'kill_at':
                trap = LineTrap(fault['line'], lambda: os._exit(9))
            elif kind == 'raise_at':
                trap = LineTrap(fault['line'], _raiser(fault['exc']))
            if trap is not None:
                with trap:
                    value = fn(*a, **k)
            else:
                value = fn(*a, **k)
            ok = True
        except BaseException as e:  # noqa
            if not isinstance(e, Exception) and not catch_base:
                os._exit(1)
            ok, value = False, e
        if kind == 'kill_after':
            os._exit(9)
        fired = bool(trap and trap.fired)
        try:
            if ok:
                out = bytes(ForkingPickler.dumps(value))
            else:
                tb = ''.join(traceback.format_exception(
                    type(value), value, value.__traceback__))
                out = bytes(ForkingPickler.dumps(_ExcWithTb(value, tb)))
        except Exception as e:  # noqa
            ok = False
            out = ('unsendable', type(e).__name__, str(e)[:200])
        _send(sock, ('done', ok, out, list(OBS), fired))


def _raiser(name):
    exc = {'MemoryError': MemoryError, 'KeyboardInterrupt': KeyboardInterrupt,
           'OSError': OSError, 'RuntimeError': RuntimeError}[name]

    def act():
        raise exc('injected')
    return act


class Worker(object):
    """A worker process as the caller sees it."""
    _ids = itertools.count(1)

    def __init__(self, world, number):
        self.world = world
        self.number = number
        self.alive = False
        self.task = None
        world.start_worker(self)

    # names of multiprocessing.Process, for code that looks at them
    name = property(lambda self: 'SimProcess-%d' % self.number)
    daemon = True

    @property
    def exitcode(self):
        return None if self.alive else -9

    @property
    def sentinel(self):
        return self.sock.fileno()

    def is_alive(self):
        return self.alive

    def join(self, timeout=None):
        pass

    def terminate(self):
        self.kill()

    def kill(self):
        if self.alive:
            self.alive = False
            try:
                os.kill(self.pid, signal.SIGKILL)
            except OSError:
                pass
            self._reap()

    def close(self):
        pass

    def _reap(self):
        self.alive = False
        self.sock.close()
        if not self.from_zygote:
            try:
                os.waitpid(self.pid, 0)
            except OSError:
                pass

    def init(self, fn, args):
        if fn is None:
            return True
        _send(self.sock, ('init', pickle.dumps((fn, args))))
        if _recv(self.sock) is None:
            self._reap()
            return False
        return True

    def run(self, blob, fault, catch_base):
        _send(self.sock, ('task', blob, fault, catch_base))
        reply = _recv(self.sock)
        if reply is None:
            self._reap()
        return reply


class Hang(BaseException):
    """The caller waits for something that cannot happen any more."""


# -------------------------------------------------------------------- world

class World(object):
    """One simulated machine: clock, scheduler, fault plan."""

    def __init__(self, ctx, choices=(), faults=(), start='fork', cpus=4,
                 steps=(), interrupt_at=None):
        self.ctx = ctx
        self.choices = list(choices)
        self.pos = 0
        # fault plan by task number (order of submission)
        self.faults = {f['task']: f for f in faults if 'task' in f}
        self.start_faults = {f['start']: f for f in faults if 'start' in f}
        self.start = start
        self.cpus = cpus
        self.now = 1.6e9
        self.steps = list(steps)
        self.n_steps = 0
        self.interrupt_at = interrupt_at
        self.n_events = 0
        self.workers = []
        self.n_started = 0
        self.n_start_calls = 0
        self.n_tasks = 0
        self.pools = []
        self.zygote = None
        self.worker_obs = []
        self.fired = []
        if start == 'spawn':
            self._start_zygote()

    # -- activation

    def __enter__(self):
        global CURRENT
        CURRENT = self
        del OBS[:]
        return self

    def __exit__(self, *a):
        global CURRENT
        CURRENT = None
        self.cleanup()
        return False

    def cleanup(self):
        for w in self.workers:
            if w.alive:
                w.kill()
        if self.zygote is not None:
            self.zygote.close()
            try:
                os.kill(self.zygote_pid, signal.SIGKILL)
                os.waitpid(self.zygote_pid, 0)
            except OSError:
                pass
            self.zygote = None

    # -- decisions

    def choose(self, n):
        """Next decision among n alternatives."""
        c = 0
        if self.pos < len(self.choices):
            c = self.choices[self.pos]
            self.pos += 1
        return c % n

    def tick(self):
        """Clock moves on (or jumps) with each event."""
        d = self.steps[self.n_steps % len(self.steps)] if self.steps \
            else 0.01
        self.n_steps += 1
        self.now += d
        self.ctx.sim_time += abs(d)
        if d < 0:
            self.ctx.count('fault:clock went backwards')
        elif d > 3600:
            self.ctx.count('fault:clock jumped ahead')

    def event(self, *ev):
        self.n_events += 1
        self.tick()
        self.ctx.log(*ev)
        self.ctx.trace.append(ev[:3])
        if self.interrupt_at is not None \
                and self.n_events >= self.interrupt_at \
                and self.waiting:
            self.interrupt_at = None
            self.ctx.count('fault:interrupt while waiting')
            self.ctx.log('interrupt')
            raise KeyboardInterrupt('injected')

    waiting = False

    # -- processes

    def _start_zygote(self):
        a, b = socket.socketpair(socket.AF_UNIX, socket.SOCK_STREAM)
        pid = os.fork()
        if pid == 0:
            try:
                a.close()
                while True:
                    msg, fds, _, _ = socket.recv_fds(b, 16, 1)
                    if not msg:
                        os._exit(0)
                    number = int(msg)
                    child = os.fork()
                    if child == 0:
                        b.close()
                        s = socket.socket(fileno=fds[0])
                        _worker_loop(s, number)
                    os.close(fds[0])
                    b.sendall(struct.pack('>I', child))
            except BaseException:  # noqa
                pass
            finally:
                os._exit(0)
        b.close()
        self.zygote, self.zygote_pid = a, pid

    def start_worker(self, w):
        self.n_start_calls += 1
        f = self.start_faults.get(self.n_start_calls)
        if f is not None:
            self.ctx.count('fault:worker start failed')
            self.fired.append(f)
            self.ctx.log('start failed', self.n_start_calls)
            raise {'MemoryError': MemoryError(12, 'Cannot allocate memory'),
                   'OSError': BlockingIOError(
                       11, 'Resource temporarily unavailable')}[f['exc']]
        a, b = socket.socketpair(socket.AF_UNIX, socket.SOCK_STREAM)
        self.n_started += 1
        if self.zygote is not None:
            socket.send_fds(self.zygote, [b'%d' % w.number], [b.fileno()])
            w.pid = struct.unpack('>I', _recv_n(self.zygote, 4))[0]
            w.from_zygote = True
        else:
            pid = os.fork()
            if pid == 0:
                try:
                    a.close()
                    for o in self.workers:
                        if o.alive:
                            o.sock.close()
                    if self.zygote is not None:
                        self.zygote.close()
                    _worker_loop(b, w.number)
                finally:
                    os._exit(1)
            w.pid = pid
            w.from_zygote = False
        b.close()
        w.sock = a
        w.alive = True
        self.workers.append(w)
        self.ctx.count('op:worker start')

    # -- tasks

    def task_fault(self, number):
        f = self.faults.get(number)
        return f

    def execute(self, worker, task):
        """Run a task in a worker now. Returns 'ok', 'raised', 'lost'."""
        f = self.task_fault(task.number)
        reply = worker.run(task.blob, f, task.catch_base)
        if reply is None:
            if f is not None and f['kind'].startswith('kill'):
                self.ctx.count('fault:worker killed')
                self.fired.append(f)
            return 'lost'
        _, ok, blob, obs, fired = reply
        for o in obs:
            self.worker_obs.append((task.number, worker.number) + tuple(o))
        if f is not None:
            kind = f['kind']
            if kind == 'raise_at' and fired:
                self.ctx.count('fault:%s inside a task' % f['exc'])
                self.fired.append(f)
            elif kind in ('build_raises', 'build_odd_error',
                          'build_unsendable', 'build_exit',
                          'build_bad_reload') \
                    and any(o[0] == 'faulted' for o in obs):
                self.ctx.count('fault:%s' % kind)
                self.fired.append(f)
        task.ok, task.result = ok, blob
        return 'ok' if ok else 'raised'

    def left_behind(self):
        """Workers still there, and pools that were not put away."""
        left = []
        for p in self.pools:
            if not p.put_away():
                left.append(repr(p))
        return left


class Task(object):
    __slots__ = ('number', 'blob', 'on_done', 'ok', 'result', 'catch_base',
                 'call', 'lost')

    def __init__(self, number, blob, on_done, catch_base, call=None):
        self.number = number
        self.blob = blob
        self.on_done = on_done
        self.catch_base = catch_base
        self.call = call
        self.lost = False


def world():
    if CURRENT is None:
        raise RuntimeError('a pool was created outside the simulation')
    return CURRENT


# -------------------------------------------- machinery shared by the pools

class Crew(object):
    """Workers and a task queue; subclasses define what a death means."""
    threads = False

    def _setup(self, n, initializer, initargs):
        self._w = world()
        self._w.pools.append(self)
        self._n = n
        self._init = (initializer, tuple(initargs or ()))
        self._crew = []
        self._queue = []
        self._inflight = []      # finished in a worker, not delivered
        self._lost = 0
        self._dead = False
        self._closed = False

    def _start_one(self):
        w = Worker(self._w, len(self._w.workers) + 1) if not self.threads \
            else ThreadWorker(self._w)
        self._crew.append(w)
        fn, args = self._init
        if not w.init(fn, args):
            self._worker_died(w, None)
        return w

    def _enabled(self):
        ev = []
        if self._queue:
            for w in self._crew:
                if w.alive and w.task is None:
                    ev.append(('take', w))
        for w in self._inflight:
            ev.append(('deliver', w))
        return ev

    def _step(self):
        """One scheduled event; False if nothing can happen."""
        ev = self._enabled()
        if not ev:
            return False
        what, w = ev[self._w.choose(len(ev))]
        if what == 'take':
            t = self._queue.pop(0)
            self._w.event('take', t.number, w.number)
            w.task = t
            r = self._w.execute(w, t) if not self.threads \
                else w.execute(t)
            if r == 'lost':
                self._w.event('worker died', t.number, w.number)
                w.task = None
                self._worker_died(w, t)
            else:
                self._inflight.append(w)
        else:
            t = w.task
            w.task = None
            self._inflight.remove(w)
            self._w.event('deliver', t.number, w.number)
            self._deliver(t)
        return True

    def _deliver(self, t):
        if self.threads:
            t.on_done(t.ok, t.result)
            return
        if isinstance(t.result, tuple):
            t.on_done(False, self._unsendable(t.result))
            return
        try:
            value = pickle.loads(t.result)
        except Exception as e:  # noqa
            self._w.ctx.count('fault:result cannot be reloaded')
            self._bad_reload(t, e)
            return
        t.on_done(t.ok, value)

    def _submit(self, fn, args, kwargs, on_done, catch_base=False):
        self._w.n_tasks += 1
        number = self._w.n_tasks
        self._w.ctx.count('op:task')
        if self.threads:
            t = Task(number, None, on_done, catch_base, (fn, args, kwargs))
        else:
            try:
                blob = bytes(ForkingPickler.dumps((fn, args, kwargs)))
            except Exception as e:  # noqa
                self._w.ctx.count('fault:arguments cannot be sent')
                self._w.ctx.log('arguments cannot be sent', number)
                on_done(False, e)
                return
            t = Task(number, blob, on_done, catch_base)
        self._queue.append(t)

    def _pump(self, done, timeout=None):
        """Let the world go on until done(); False on a timeout."""
        deadline = None if timeout is None else self._w.now + timeout
        self._w.waiting = True
        try:
            while not done():
                if not self._step():
                    if done():
                        break
                    if deadline is None:
                        self._w.ctx.log('hang')
                        raise Hang('the caller waits for ever: %d task(s) '
                                   'lost' % self._lost)
                    self._w.now = max(self._w.now, deadline)
                    return False
                if deadline is not None and self._w.now >= deadline \
                        and not done():
                    return False
        finally:
            self._w.waiting = False
        return True

    def _kill_all(self):
        self._dead = True
        self._queue = []
        self._inflight = []
        for w in self._crew:
            w.kill()

    def put_away(self):
        if any(w.alive for w in self._crew):
            return False
        return True


class ThreadWorker(object):
    """A thread of a simulated thread pool: tasks run in the caller."""

    def __init__(self, w):
        self.world = w
        self.alive = True
        self.task = None
        w.n_started += 1
        self.number = 1000 + w.n_started

    def init(self, fn, args):
        if fn is not None:
            fn(*args)
        return True

    def execute(self, t):
        global WORKER
        fn, a, k = t.call
        f = dict(self.world.task_fault(t.number) or {})
        old, WORKER = WORKER, {'number': self.number, 'fault': f}
        try:
            t.result, t.ok = fn(*a, **k), True
        except Exception as e:  # noqa
            t.result, t.ok = e, False
        finally:
            WORKER = old
        return 'ok'

    def kill(self):
        self.alive = False


# -------------------------------------------------------------------- Pool

class SimAsyncResult(object):
    def __init__(self, pool, n, single, callback, error_callback,
                 chunks=None):
        self._pool = pool
        self._n = n
        self._left = n
        self._single = single
        self._value = [None] * n
        self._error = None
        self._cb, self._ecb = callback, error_callback
        self._chunks = chunks

    def _set(self, start, count):
        def on_done(ok, value):
            if self._left <= 0 and self._error is None:
                return
            if ok:
                if self._single:
                    self._value[0] = value
                else:
                    self._value[start:start + count] = value
                self._left -= count
            else:
                if self._error is None:
                    self._error = value
                self._left -= count
            # like the standard pool: an error is only reported once all
            # the pieces have come back
            if self._left <= 0:
                if self._error is not None:
                    if self._ecb:
                        self._ecb(self._error)
                elif self._cb:
                    self._cb(self._value[0] if self._single
                             else self._value)
        return on_done

    def ready(self):
        return self._left <= 0

    def successful(self):
        if not self.ready():
            raise ValueError('not ready')
        return self._error is None

    def wait(self, timeout=None):
        self._pool._pump(self.ready, timeout)

    def get(self, timeout=None):
        if not self._pool._pump(self.ready, timeout):
            raise multiprocessing.TimeoutError
        if self._error is not None:
            raise self._error
        return self._value[0] if self._single else self._value


def _mapstar(fn, batch):
    return [fn(x) for x in batch]


def _starmapstar(fn, batch):
    return [fn(*x) for x in batch]


class SimPool(Crew):
    """Stands for multiprocessing.pool.Pool, with its behaviour when
    workers die: the task is lost, a new worker takes the place, and whoever
    waits for the task waits for ever."""

    def __init__(self, processes=None, initializer=None, initargs=(),
                 maxtasksperchild=None, context=None):
        n = processes if processes is not None else os.cpu_count() or 1
        if n < 1:
            raise ValueError('Number of processes must be at least 1')
        if initializer is not None and not callable(initializer):
            raise TypeError('initializer must be a callable')
        self._setup(n, initializer, initargs)
        self._processes = n
        try:
            for _ in range(n):
                self._start_one()
        except BaseException:
            self._kill_all()
            raise

    @property
    def _pool(self):
        return list(self._crew)

    def _worker_died(self, w, task):
        if task is not None:
            self._lost += 1
        if w in self._crew:
            self._crew.remove(w)
        self._start_one()

    def _unsendable(self, info):
        return mpp.MaybeEncodingError(
            Exception('%s: %s' % info[1:]), 'result')

    def _bad_reload(self, t, e):
        # the thread that receives results ends: nothing arrives any more
        self._lost += 1
        self._queue_stopped = True
        self._inflight = []
        for w in self._crew:
            w.task = 'never delivered'

    def _check(self):
        if self._closed or self._dead:
            raise ValueError('Pool not running')

    def _map_async(self, star, func, iterable, chunksize, callback, ecb):
        self._check()
        items = list(iterable)
        if chunksize is None:
            chunksize, extra = divmod(len(items), self._n * 4)
            if extra:
                chunksize += 1
        if len(items) == 0:
            chunksize = 1
        res = SimAsyncResult(self, len(items), False, callback, ecb)
        for a in range(0, len(items), chunksize):
            part = tuple(items[a:a + chunksize])
            self._submit(star, (func, part), {}, res._set(a, len(part)))
        return res

    def map_async(self, func, iterable, chunksize=None, callback=None,
                  error_callback=None):
        return self._map_async(_mapstar, func, iterable, chunksize, callback,
                               error_callback)

    def map(self, func, iterable, chunksize=None):
        return self.map_async(func, iterable, chunksize).get()

    def starmap_async(self, func, iterable, chunksize=None, callback=None,
                      error_callback=None):
        return self._map_async(_starmapstar, func, iterable, chunksize,
                               callback, error_callback)

    def starmap(self, func, iterable, chunksize=None):
        return self.starmap_async(func, iterable, chunksize).get()

    def apply_async(self, func, args=(), kwds={}, callback=None,
                    error_callback=None):
        self._check()
        res = SimAsyncResult(self, 1, True, callback, error_callback)
        self._submit(func, tuple(args), dict(kwds), res._set(0, 1))
        return res

    def apply(self, func, args=(), kwds={}):
        return self.apply_async(func, args, kwds).get()

    def imap(self, func, iterable, chunksize=1):
        rs = []
        items = list(iterable)
        for a in range(0, len(items), chunksize):
            rs.append(self.map_async(func, items[a:a + chunksize],
                                     chunksize))

        def gen():
            for r in rs:
                for v in r.get():
                    yield v
        return _TimedIter(gen())

    def imap_unordered(self, func, iterable, chunksize=1):
        done = []
        items = list(iterable)
        n = 0
        for a in range(0, len(items), chunksize):
            n += 1
            self.map_async(
                func, items[a:a + chunksize], chunksize,
                callback=lambda v: done.append((True, v)),
                error_callback=lambda e: done.append((False, e)))

        def gen():
            for i in range(n):
                self._pump(lambda: len(done) > i)
                ok, v = done[i]
                if not ok:
                    raise v
                for x in v:
                    yield x
        return _TimedIter(gen())

    def close(self):
        self._closed = True

    def terminate(self):
        self._closed = True
        self._kill_all()

    def join(self):
        if not self._closed:
            raise ValueError('Pool is still running')
        if not self._dead:
            self._pump(lambda: not self._queue and not self._inflight
                       and not self._lost)
            self._kill_all()

    def put_away(self):
        if self._closed and not self._dead and not self._lost:
            # they finish what is queued and leave by themselves
            return True
        return Crew.put_away(self)

    def __repr__(self):
        return '<pool of %d, %s, %d workers alive>' % (
            self._n, 'closed' if self._closed else 'open',
            sum(w.alive for w in self._crew))

    def __enter__(self):
        self._check()
        return self

    def __exit__(self, *a):
        self.terminate()


class _TimedIter(object):
    def __init__(self, it):
        self._it = it

    def __iter__(self):
        return self

    def __next__(self):
        return next(self._it)

    def next(self, timeout=None):
        return next(self._it)


class SimThreadPool(SimPool):
    threads = True

    def __init__(self, processes=None, initializer=None, initargs=()):
        SimPool.__init__(self, processes, initializer, initargs)


# ---------------------------------------------------------------- executors

class SimFuture(cf.Future):
    """A future whose waiters drive the simulation."""
    _exec = None

    def result(self, timeout=None):
        if self._exec is not None and not self.done():
            if not self._exec._pump(self.done, timeout):
                raise cf.TimeoutError()
        return cf.Future.result(self, 0)

    def exception(self, timeout=None):
        if self._exec is not None and not self.done():
            if not self._exec._pump(self.done, timeout):
                raise cf.TimeoutError()
        return cf.Future.exception(self, 0)


class SimExecutor(Crew, cf.Executor):
    """Stands for concurrent.futures.ProcessPoolExecutor: when a worker
    dies the executor is broken, everything pending fails and the other
    workers are terminated."""

    def __init__(self, max_workers=None, mp_context=None, initializer=None,
                 initargs=(), *, max_tasks_per_child=None):
        n = max_workers if max_workers is not None else os.cpu_count() or 1
        if n <= 0:
            raise ValueError('max_workers must be greater than 0')
        if initializer is not None and not callable(initializer):
            raise TypeError('initializer must be a callable')
        self._setup(n, initializer, initargs)
        self._max_workers = n
        self._processes = {}
        self._broken = False
        self._started = False
        self._futures = {}

    def _start_one(self):
        w = Crew._start_one(self)
        self._processes[getattr(w, 'pid', w.number)] = w
        return w

    def _worker_died(self, w, task):
        self._broken = cfp.BrokenProcessPool(
            'A process in the process pool was terminated abruptly while '
            'the future was running or pending.')
        self._kill_all()
        for fut in list(self._futures.values()):
            if not fut.done():
                fut.set_exception(cfp.BrokenProcessPool(
                    'A process in the process pool was terminated '
                    'abruptly while the future was running or pending.'))
        self._futures = {}

    def _unsendable(self, info):
        return pickle.PicklingError('%s: %s' % info[1:])

    def _bad_reload(self, t, e):
        self._worker_died(None, t)

    def submit(self, fn, /, *args, **kwargs):
        if self._broken:
            raise self._broken
        if self._closed:
            raise RuntimeError('cannot schedule new futures after shutdown')
        fut = SimFuture()
        fut._exec = self
        if not self._started:
            # with fork, all workers start at the first submission; a
            # failure leaves those that did start
            for _ in range(self._max_workers):
                self._start_one()
                if self._broken:
                    raise self._broken
            self._started = True
        key = len(self._futures)
        self._futures[key] = fut

        def on_done(ok, value):
            self._futures.pop(key, None)
            if fut.done():
                return
            if ok:
                fut.set_result(value)
            else:
                fut.set_exception(value)
        self._submit(fn, args, kwargs, on_done, catch_base=True)
        return fut

    def _step(self):
        # cancelled futures leave the queue
        self._queue = [t for t in self._queue
                       if not self._cancelled(t)]
        return Crew._step(self)

    def _cancelled(self, t):
        fut = t.on_done.__closure__
        for c in fut or ():
            v = c.cell_contents
            if isinstance(v, SimFuture) and v.cancelled():
                return True
        return False

    def map(self, fn, *iterables, timeout=None, chunksize=1):
        if chunksize < 1:
            raise ValueError('chunksize must be >= 1.')
        items = list(zip(*iterables))
        futs = [self.submit(_starmapstar, fn, tuple(items[a:a + chunksize]))
                for a in range(0, len(items), chunksize)]
        end = None if timeout is None else timeout + self._w.now

        def gen():
            try:
                futs.reverse()
                while futs:
                    f = futs.pop()
                    r = f.result(None if end is None
                                 else max(0., end - self._w.now))
                    for v in r:
                        yield v
            finally:
                for f in futs:
                    f.cancel()
        return gen()

    def shutdown(self, wait=True, *, cancel_futures=False):
        self._closed = True
        if cancel_futures:
            for fut in list(self._futures.values()):
                fut.cancel()
        if not self._dead and not self._broken and self._started:
            if wait:
                self._pump(lambda: not self._queue and not self._inflight)
            self._kill_all()
        self._processes = None

    def put_away(self):
        if self._closed and self._started and not self._lost:
            return True
        return Crew.put_away(self)

    def __repr__(self):
        return '<executor of %d, %s, %d workers alive>' % (
            self._n, 'shut down' if self._closed else 'open',
            sum(w.alive for w in self._crew))

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.shutdown(wait=True)
        return False


class SimThreadExecutor(SimExecutor):
    threads = True

    def __init__(self, max_workers=None, thread_name_prefix='',
                 initializer=None, initargs=()):
        SimExecutor.__init__(self, max_workers, None, initializer, initargs)


def sim_as_completed(fs, timeout=None):
    fs = list(fs)
    if not any(isinstance(f, SimFuture) for f in fs):
        for f in REAL['as_completed'](fs, timeout):
            yield f
        return
    order = []
    for f in fs:
        f.add_done_callback(order.append)
    for i in range(len(fs)):
        if len(order) <= i:
            ex = next(f._exec for f in fs if not f.done())
            if not ex._pump(lambda: len(order) > i, timeout):
                raise cf.TimeoutError()
        yield order[i]


def sim_wait(fs, timeout=None, return_when=cf.ALL_COMPLETED):
    fs = list(fs)
    if not any(isinstance(f, SimFuture) for f in fs):
        return REAL['wait'](fs, timeout, return_when)

    def done():
        d = [f for f in fs if f.done()]
        if return_when == cf.FIRST_COMPLETED:
            return bool(d)
        if return_when == cf.FIRST_EXCEPTION and any(
                not f.cancelled() and cf.Future.exception(f, 0) is not None
                for f in d):
            return True
        return len(d) == len(fs)
    pend = [f for f in fs if not f.done()]
    if pend and not done():
        pend[0]._exec._pump(done, timeout)
    return cf._base.DoneAndNotDoneFutures(
        set(f for f in fs if f.done()), set(f for f in fs if not f.done()))


# ----------------------------------------------------------------- install

def _clock(name):
    real = getattr(time, name)

    def now():
        w = CURRENT
        if w is None:
            return real()
        return w.now
    now.__name__ = name
    return now


def _sleep(seconds):
    w = CURRENT
    if w is None:
        REAL['sleep'](min(seconds, 0.01))
        return
    w.now += seconds
    w.ctx.sim_time += seconds


def _cpu_count():
    w = CURRENT
    return REAL['cpu_count']() if w is None else w.cpus


def _affinity(pid=0):
    w = CURRENT
    return REAL['affinity'](pid) if w is None else set(range(w.cpus))


class SimLock(object):
    """A lock made by the code under test. Where threads are simulated, one
    that waits for it hands over to the others instead of blocking."""

    def __init__(self, real):
        self._real = real

    def acquire(self, blocking=True, timeout=-1):
        if self._real.acquire(False):
            return True
        if not blocking:
            return False
        from sim import threads
        th = threads.of_current()
        if th is None:
            return self._real.acquire(True, timeout)
        while not self._real.acquire(False):
            th[0].blocked(th[1])
        return True

    def release(self):
        self._real.release()
        from sim import threads
        th = threads.of_current()
        if th is not None:
            th[0].waiting.clear()

    def locked(self):
        return self._real.locked()

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()

    def __reduce_ex__(self, protocol):
        raise TypeError("cannot pickle '_thread.lock' object")

    def __deepcopy__(self, memo):
        raise TypeError("cannot pickle '_thread.lock' object")


def _lock_factory(name):
    import threading
    real = getattr(threading, name)

    def make():
        if SUT_DIR in sys._getframe(1).f_code.co_filename:
            return SimLock(real())
        return real()
    make.__name__ = name
    return make


def install():
    """Replace the seams. Must come before the code under test is
    imported."""
    if REAL:
        return
    if any(m == 'pvfactors' or m.startswith('pvfactors.')
           for m in sys.modules):
        raise RuntimeError('code under test imported before its seams')
    import numpy  # noqa: modules that read the clock at import time
    import pandas  # noqa
    import threading  # noqa
    REAL.update(as_completed=cf.as_completed, wait=cf.wait, sleep=time.sleep,
                cpu_count=os.cpu_count, affinity=os.sched_getaffinity)
    mpp.Pool = SimPool
    mpp.ThreadPool = SimThreadPool
    cfp.ProcessPoolExecutor = SimExecutor
    cft.ThreadPoolExecutor = SimThreadExecutor
    cf.ProcessPoolExecutor = SimExecutor
    cf.ThreadPoolExecutor = SimThreadExecutor
    cf.as_completed = cf._base.as_completed = sim_as_completed
    cf.wait = cf._base.wait = sim_wait
    os.cpu_count = _cpu_count
    os.sched_getaffinity = _affinity
    for name in ('time', 'perf_counter', 'monotonic'):
        setattr(time, name, _clock(name))
    time.sleep = _sleep
    for name in ('Lock', 'RLock'):
        setattr(threading, name, _lock_factory(name))
