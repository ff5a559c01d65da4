"""Threads that run one at a time; who runs, and for how many lines of the
code under test, is in the scenario."""
import sys
import threading

from sim import seams


_OF = {}


def of_current():
    """(simulated threads, number) of the running thread."""
    return _OF.get(threading.get_ident())


def _importing(frame):
    """Whether a module is being imported in this thread: the import lock is
    held, and whoever else needs it blocks for real."""
    while frame is not None:
        if frame.f_code.co_filename == '<frozen importlib._bootstrap>':
            return True
        frame = frame.f_back
    return False


class Injected(Exception):
    pass


class Threads(object):
    """slices: [thread, lines] or [thread, 'to', line] in order; then each
    thread runs to its end in the order of their numbers. kills: {thread:
    line}."""

    def __init__(self, ctx, fns, slices, kills=None, extra_dirs=()):
        self.ctx = ctx
        self.fns = fns
        self.slices = list(slices)
        self.kills = dict(kills or {})
        n = len(fns)
        self.batons = [threading.Lock() for _ in range(n)]
        for b in self.batons:
            b.acquire()
        self.finished = threading.Lock()
        self.finished.acquire()
        self.alive = set(range(n))
        self.waiting = set()
        self.lines = [0] * n
        self.left = 0
        self.results = [None] * n
        self.switches = 0
        self.sites = set()

    # -- scheduling

    def _next(self):
        """Choose who goes on, and for how long."""
        while self.slices:
            s = self.slices.pop(0)
            t = s[0] % len(self.fns)
            if t not in self.alive:
                continue
            k = s[1] if s[1] != 'to' else s[2] - self.lines[t]
            if k > 0:
                self.left = k
                return t
        self.left = 10**9
        return min(self.alive)

    def _switch(self, me):
        t = self._next()
        if t == me:
            return
        self.switches += 1
        self.ctx.log('switch', me, t, self.lines[me])
        self.batons[t].release()
        self.batons[me].acquire()

    def blocked(self, me):
        """The running thread waits for a lock of the code under test."""
        self.waiting.add(me)
        free = sorted(self.alive - self.waiting)
        if not free:
            raise RuntimeError('deadlock: all threads wait')
        self.ctx.log('blocked', me, free[0], self.lines[me])
        self.ctx.count('op:wait for a lock')
        self.left = 100
        self.batons[free[0]].release()
        self.batons[me].acquire()

    def _trace(self, me):
        def local(frame, event, arg):
            if event == 'line':
                self.lines[me] += 1
                if self.lines[me] >= self.kills.get(me, 10**9) \
                        and not seams.protected(frame.f_code.co_filename,
                                                frame.f_lineno):
                    del self.kills[me]
                    self.ctx.log('killed', me)
                    self.ctx.count('fault:exception in one thread')
                    raise Injected('injected')
                self.left -= 1
                if self.left <= 0 and not _importing(frame):
                    self.sites.add(frame.f_code.co_name)
                    self._switch(me)
            return local

        def glob(frame, event, arg):
            if seams.SUT_DIR in frame.f_code.co_filename:
                return local
            return None
        return glob

    def _body(self, me):
        self.batons[me].acquire()
        _OF[threading.get_ident()] = self, me
        sys.settrace(self._trace(me))
        try:
            out = ('ok', self.fns[me]())
        except BaseException as e:  # noqa
            out = ('raised', e)
        finally:
            sys.settrace(None)
            del _OF[threading.get_ident()]
        self.results[me] = out
        self.alive.discard(me)
        self.ctx.log('ended', me, out[0])
        if self.alive:
            t = self._next()
            self.batons[t].release()
        else:
            self.finished.release()

    def run(self):
        ths = [threading.Thread(target=self._body, args=(i,), daemon=True)
               for i in range(len(self.fns))]
        for t in ths:
            t.start()
        self.batons[self._next()].release()
        self.finished.acquire()
        for t in ths:
            t.join()
        return self.results
