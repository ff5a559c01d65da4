"""Core of the simulator: seeded scenarios, isolated executions, violations,
minimisation, replay files and evidence.

One scenario (a JSON value made from one seed) is one execution: it runs in
a freshly forked child of a process that has only imported modules, so an
execution never depends on the ones before it, on the number of workers or on
the order of scenarios."""
import hashlib
import json
import mmap
import os
import pickle
import random
import select
import signal
import struct
import sys
import time
import traceback

REAL_TIME = time.monotonic
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPLAYS = os.path.join(VERIF, 'replays')
EVIDENCE = os.path.join(VERIF, 'evidence')
KNOWN = os.path.join(VERIF, 'known_findings.json')


class Violation(BaseException):
    """The property does not hold in this execution."""

    def __init__(self, kind, detail=''):
        BaseException.__init__(self, kind, detail)
        self.kind = kind
        self.detail = detail


class Rng(random.Random):
    """The only source of choices of a scenario."""

    def chance(self, p):
        return self.random() < p

    def weighted(self, pairs):
        tot = sum(w for _, w in pairs)
        x = self.random() * tot
        for v, w in pairs:
            x -= w
            if x <= 0:
                return v
        return pairs[-1][0]


def rng_for(*key):
    h = hashlib.sha256(repr(key).encode()).digest()
    return Rng(int.from_bytes(h[:8], 'big'))


class Ctx(object):
    """What an execution records."""

    def __init__(self, mutable=True):
        self.events = []
        self.counts = {}
        self.sim_time = 0.0
        self.trace = []

    def log(self, *ev):
        """Event log: must be a function of the scenario and the code."""
        self.events.append(ev)

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def violate(self, kind, detail=''):
        raise Violation(kind, detail)

    def check(self, cond, kind, detail=''):
        if not cond:
            raise Violation(kind, detail() if callable(detail) else detail)

    def log_hash(self):
        return hashlib.sha256(json.dumps(
            self.events, default=str).encode()).hexdigest()[:16]

    def shape_hash(self):
        """Identity of the interleaving or operation history: scheduler
        decisions if there are any, else the events without real values."""
        return hashlib.sha256(json.dumps(
            self.trace or [[x for x in e if isinstance(
                x, (str, int, bool, type(None)))] for e in self.events],
            default=str).encode()).hexdigest()[:16]


# --------------------------------------------------------------- execution

def _watch_lines(where):
    """Note which lines of the code under test are reached (SIM_COV=DIR, a
    help for those who write checks)."""
    from sim import seams
    mon = sys.monitoring
    seen = set()

    def line(code, n):
        if seams.SUT_DIR in code.co_filename:
            seen.add((code.co_filename.split(seams.SUT_DIR)[-1], n))
        return mon.DISABLE

    def done():
        with open(os.path.join(where, '%d' % os.getpid()), 'w') as f:
            json.dump(sorted(seen), f)
    mon.use_tool_id(3, 'lines')
    mon.register_callback(3, mon.events.LINE, line)
    mon.set_events(3, mon.events.LINE)
    return done


def _execute_here(prop, scenario):
    ctx = Ctx()
    out = {'status': 'ok'}
    done = _watch_lines(os.environ['SIM_COV']) if os.environ.get(
        'SIM_COV') else None
    try:
        prop.execute(scenario, ctx)
    except Violation as v:
        out = {'status': 'violation', 'kind': v.kind,
               'detail': str(v.detail)[:2000]}
    except BaseException as e:  # noqa
        out = {'status': 'error', 'kind': type(e).__name__,
               'detail': traceback.format_exc()[-4000:]}
    if done:
        done()
    out['log'] = ctx.log_hash()
    out['shape'] = ctx.shape_hash()
    out['counts'] = ctx.counts
    out['sim_time'] = ctx.sim_time
    out['n_events'] = len(ctx.events)
    if os.environ.get('SIM_EVENTS'):
        out['events'] = ctx.events
    return out


def _read_all(fd, n, deadline):
    buf = b''
    while len(buf) < n:
        left = deadline - REAL_TIME()
        if left <= 0:
            return None
        r, _, _ = select.select([fd], [], [], left)
        if not r:
            return None
        part = os.read(fd, min(1 << 20, n - len(buf)))
        if not part:
            return b''
        buf += part
    return buf


def run_isolated(prop, scenario, timeout=60.):
    """Execute the scenario in a forked child and return its outcome."""
    rfd, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(rfd)
            os.setpgid(0, 0)
            signal.signal(signal.SIGINT, signal.SIG_DFL)
            out = _execute_here(prop, scenario)
            data = pickle.dumps(out)
            os.write(wfd, struct.pack('>I', len(data)))
            view = memoryview(data)
            while view:
                k = os.write(wfd, view)
                view = view[k:]
        except BaseException:  # noqa
            traceback.print_exc()
            code = 70
        finally:
            os._exit(code)
    os.close(wfd)
    try:
        os.setpgid(pid, pid)
    except OSError:
        pass
    deadline = REAL_TIME() + timeout
    head = _read_all(rfd, 4, deadline)
    body = None
    if head:
        body = _read_all(rfd, struct.unpack('>I', head)[0], deadline)
    os.close(rfd)
    if body:
        out = pickle.loads(body)
    elif head is None or body is None and head:
        out = {'status': 'stuck', 'kind': 'stuck',
               'detail': 'no result after %.0f s' % timeout}
    else:
        out = {'status': 'crash', 'kind': 'crash', 'detail': ''}
    try:
        os.killpg(pid, signal.SIGKILL)
    except OSError:
        pass
    try:
        os.kill(pid, signal.SIGKILL)
    except OSError:
        pass
    _, st = os.waitpid(pid, 0)
    if out['status'] == 'crash':
        out['detail'] = 'child ended with wait status %d' % st
    for k, v in (('log', ''), ('shape', ''), ('counts', {}),
                 ('sim_time', 0.), ('n_events', 0)):
        out.setdefault(k, v)
    return out


def verdict(prop, out):
    """Class of an outcome: None (fine), ('violation', kind) or
    ('error', ...). A simulated process that crashes or does not end is
    a violation: nothing in the listed properties allows it."""
    st = out['status']
    if st == 'ok':
        return None
    if st == 'violation':
        return ('violation', out['kind'])
    if st == 'crash':
        return ('violation', 'process crashed')
    if st == 'stuck':
        return ('violation', 'no progress')
    return ('error', out['kind'])


# ----------------------------------------------------------------- batches

def _worker(prop, seed, tier, indices, deadline, hard, wfd, stop_after,
            first):
    """Execute scenarios and stream outcomes to the parent."""
    found = 0
    known = load_known(prop.ID)
    for i in indices:
        # nothing beyond the first violation needs to be done, everything
        # before it does
        if REAL_TIME() > deadline or i > struct.unpack('>q', first[:8])[0]:
            break
        scenario = prop.generate(rng_for(seed, prop.ID, i), i, tier)
        t = REAL_TIME()
        out = run_isolated(prop, scenario, prop.TIMEOUT)
        if out['status'] == 'stuck':
            # a slow machine is not a violation: try once more, longer
            more = min(prop.TIMEOUT * 3, hard - REAL_TIME())
            if more < prop.TIMEOUT * 1.2:
                break
            out = run_isolated(prop, scenario, more)
        out['i'] = i
        out['took'] = REAL_TIME() - t
        data = pickle.dumps(out)
        os.write(wfd, struct.pack('>I', len(data)))
        view = memoryview(data)
        while view:
            k = os.write(wfd, view)
            view = view[k:]
        v = verdict(prop, out)
        if v is not None:
            found += 1
            if found >= stop_after:
                break
            if stop_after < 10**6 and v[0] == 'violation' and not any(
                    prop.matches_known(k, scenario, out) for k in known):
                first[:8] = struct.pack('>q', min(
                    i, struct.unpack('>q', first[:8])[0]))
    os._exit(0)


def run_batch(prop, seed, tier, n, wall, workers=8, stop_after=3, hard=None):
    """Run scenarios 0..n-1 on some workers. The outcome of each is
    independent of the number of workers. No scenario is begun after wall
    seconds; hard is the time by which all is to be over."""
    t0 = REAL_TIME()
    deadline = t0 + wall
    hard = hard or t0 + 1e6
    fds = {}
    first = mmap.mmap(-1, 8)
    first[:8] = struct.pack('>q', 2**62)
    for w in range(workers):
        rfd, wfd = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(rfd)
                _worker(prop, seed, tier, range(w, n, workers), deadline,
                        hard, wfd, stop_after, first)
            except BaseException:  # noqa
                traceback.print_exc()
            finally:
                os._exit(71)
        os.close(wfd)
        fds[rfd] = [pid, b'']
    outs = []
    bad = []
    while fds:
        r, _, _ = select.select(list(fds), [], [], 5.)
        for fd in r:
            part = os.read(fd, 1 << 20)
            if not part:
                pid, rest = fds.pop(fd)
                os.close(fd)
                _, st = os.waitpid(pid, 0)
                if st != 0 or rest:
                    bad.append('worker ended with %d' % st)
                continue
            st = fds[fd]
            st[1] += part
            while len(st[1]) >= 4:
                ln = struct.unpack('>I', st[1][:4])[0]
                if len(st[1]) < 4 + ln:
                    break
                outs.append(pickle.loads(st[1][4:4 + ln]))
                st[1] = st[1][4 + ln:]
    outs.sort(key=lambda o: o['i'])
    return outs, bad, REAL_TIME() - t0


# ------------------------------------------------------------ minimisation

def list_shrinks(items):
    """Smaller versions of a list, big steps first."""
    n = len(items)
    size = n
    while size >= 1:
        for a in range(0, n, size):
            cand = items[:a] + items[a + size:]
            if len(cand) < n:
                yield cand
        size //= 2


def shrink_keys(sc, key, minimum=0):
    """Scenarios with a shorter list at sc[key]."""
    for cand in list_shrinks(sc[key]):
        if len(cand) >= minimum:
            new = dict(sc)
            new[key] = cand
            yield new


def minimise(prop, scenario, kind, wall=60.):
    """Greedy reduction: keep any smaller scenario with the same class of
    violation."""
    t0 = REAL_TIME()
    tried = 0
    seen = set()
    best = scenario
    progress = True
    while progress and REAL_TIME() - t0 < wall:
        progress = False
        for cand in prop.shrinks(best):
            key = json.dumps(cand, sort_keys=True)
            if key in seen:
                continue
            seen.add(key)
            if REAL_TIME() - t0 > wall:
                break
            tried += 1
            out = run_isolated(prop, cand, min(
                prop.TIMEOUT, t0 + wall + 30. - REAL_TIME()))
            v = verdict(prop, out)
            if v == ('violation', kind):
                best = cand
                progress = True
                break
    return best, tried


# ------------------------------------------------------------------ replay

def write_replay(prop, seed, index, scenario, out, original=None, note=''):
    os.makedirs(REPLAYS, exist_ok=True)
    name = '%s-%d-%d.json' % (prop.ID, seed, index)
    path = os.path.join(REPLAYS, name)
    with open(path, 'w') as f:
        json.dump({'property': prop.ID, 'seed': seed, 'index': index,
                   'scenario': scenario,
                   'expect': {'kind': verdict(prop, out)[1],
                              'log': out['log'],
                              'detail': out['detail']},
                   'original_scenario': original, 'note': note},
                  f, indent=1, sort_keys=True)
    return path


def load_known(prop_id):
    try:
        with open(KNOWN) as f:
            data = json.load(f)
    except FileNotFoundError:
        return []
    return [k for k in data.get('findings', [])
            if k['property'] == prop_id]


# ------------------------------------------------------------ pristine runs

def pristine(fn, *a, **k):
    """Run fn in a fork of this process and return its result: whatever fn
    does or caches stays there."""
    rfd, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(rfd)
            try:
                out = (True, fn(*a, **k))
            except BaseException as e:  # noqa
                out = (False, (type(e).__name__, str(e)[:500],
                               traceback.format_exc()[-3000:]))
            data = pickle.dumps(out)
            with os.fdopen(wfd, 'wb') as f:
                f.write(data)
        except BaseException:  # noqa
            code = 1
        finally:
            os._exit(code)
    os.close(wfd)
    with os.fdopen(rfd, 'rb') as f:
        data = f.read()
    os.waitpid(pid, 0)
    if not data:
        return Failed('died', '', '')
    ok, v = pickle.loads(data)
    return v if ok else Failed(*v)


class Failed(object):
    """A pristine run that raised."""

    def __init__(self, name, text, tb):
        self.name = name
        self.text = text
        self.tb = tb

    def __str__(self):
        return '%s: %s' % (self.name, self.text)
