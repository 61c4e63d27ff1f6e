"""Thread scheduler: real threads of one node, one running at a time.

Yield points are the executed source lines of mdpo, polib and event modules
(through sys.settrace) and contended locks.  The schedule is explicit: a list
of preemptions ``{'thread': t, 'loc': [file, line], 'nth': k, 'to': u}``, plus
the default rule "run the current thread until it blocks or ends, then the
lowest-numbered runnable one".
"""

import copy
import os
import sys
import threading
import _thread

_allocate = _thread.allocate_lock
RealLock = threading.Lock
SCHED = None


class SimLock:
    """Replacement of threading.Lock and RLock that the scheduler knows."""

    def __init__(self, reentrant=False):
        self._reentrant = reentrant
        self._owner = None
        self._count = 0
        self._real = _allocate()

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        s = SCHED
        if self._reentrant and self._owner == me:
            self._count += 1
            return True
        if s is None or not s.mine():
            if timeout is not None and timeout > 0:
                ok = self._real.acquire(blocking, timeout)
            else:
                ok = self._real.acquire(blocking)
        else:
            ok = self._real.acquire(False)
            tries = 0
            while not ok and blocking:
                tries += 1
                if timeout is not None and timeout >= 0 and tries > 3:
                    return False
                s.block(self)
                ok = self._real.acquire(False)
        if ok:
            self._owner = me
            self._count = 1
        return ok

    def release(self):
        if self._reentrant:
            if self._owner != _thread.get_ident():
                raise RuntimeError('cannot release un-acquired lock')
            self._count -= 1
            if self._count:
                return
        self._owner = None
        self._real.release()
        if SCHED is not None:
            SCHED.released(self)

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    def locked(self):
        return self._real.locked()

    def _is_owned(self):
        return self._owner == _thread.get_ident()

    def _at_fork_reinit(self):
        self._owner, self._count, self._real = None, 0, _allocate()


def patch_locks():
    threading.Lock = lambda: SimLock()
    threading.RLock = lambda: SimLock(True)


class Deadlock(BaseException):
    pass


class Scheduler:
    def __init__(self, n, preempt, watch, sample):
        self.n = n
        self.gates = [_allocate() for _ in range(n)]
        for g in self.gates:
            g.acquire()
        self.main = _allocate()
        self.main.acquire()
        self.ids = {}
        self.state = ['ready'] * n
        self.waiting = [None] * n
        self.preempt = {}
        for p in preempt:
            self.preempt.setdefault(
                (p['thread'], p['loc'][0], p['loc'][1]), []).append(
                    [p['nth'], p['to']])
        self.watch = watch
        self.seen = {}
        self.locs = {}
        self.sample = sample
        self.trace = []
        self.lines = 0
        self.cur = None
        self.dead = False

    def mine(self):
        return _thread.get_ident() in self.ids

    def me(self):
        return self.ids[_thread.get_ident()]

    def runnable(self):
        return [i for i in range(self.n) if self.state[i] == 'ready']

    def switch(self, to):
        """Hand over to thread ``to`` and wait for our turn again."""
        me = self.me()
        if to == me:
            return
        self.cur = to
        self.gates[to].release()
        self.gates[me].acquire()
        if self.dead:
            raise Deadlock

    def block(self, lock):
        me = self.me()
        self.state[me] = 'blocked'
        self.waiting[me] = lock
        r = self.runnable()
        if not r:
            self.dead = True
            self.trace.append('deadlock')
            self.state[me] = 'ready'
            raise Deadlock
        self.trace.append(f'block {me}->{r[0]}')
        self.switch(r[0])

    def released(self, lock):
        for i in range(self.n):
            if self.waiting[i] is lock:
                self.waiting[i] = None
                self.state[i] = 'ready'

    def line(self, key, lineno):
        me = self.me()
        self.lines += 1
        k = (me, key, lineno)
        n = self.seen.get(k, 0)
        self.seen[k] = n + 1
        for p in self.preempt.get(k, ()):
            if p[0] == n:
                r = [i for i in self.runnable() if i != me]
                if r:
                    to = r[p[1] % len(r)]
                    self.trace.append(f'preempt {me}@{key}:{lineno}#{n}'
                                      f'->{to}')
                    self.switch(to)

    def tracer(self, frame, event, arg):
        fn = frame.f_code.co_filename
        key = self.watch(fn)
        if key is None:
            return None

        def local(frame, event, arg):
            if event == 'line':
                self.line(key, frame.f_lineno)
            return local
        return local

    def finish(self):
        me = self.me()
        self.state[me] = 'done'
        r = self.runnable()
        if r:
            self.cur = r[0]
            self.gates[r[0]].release()
        elif all(s == 'done' for s in self.state):
            self.main.release()
        else:
            # everyone else is blocked for ever
            self.dead = True
            self.trace.append('deadlock')
            for i in range(self.n):
                if self.state[i] == 'blocked':
                    self.state[i] = 'ready'
                    self.waiting[i] = None
            self.gates[self.runnable()[0]].release()


def run_threads(prog):
    """Run the calls of a program in threads under the given schedule."""
    import node as nodemod
    import seam
    import tools
    global SCHED
    src = nodemod.REPO_SRC + os.sep
    world = seam.NODE.world + os.sep

    def watch(fn):
        if fn.startswith(src):
            return fn[len(src):]
        if fn.endswith('/polib.py'):
            return 'polib.py'
        if fn.startswith(world):
            return 'world/' + fn[len(world):]
        if not fn.startswith('/') and fn.endswith('.py'):
            return 'world/' + fn
        return None

    calls = prog['calls']
    s = Scheduler(len(calls), prog.get('preempt', ()), watch, None)
    results = [None] * len(calls)
    streams = s.streams = ThreadStreams(s)
    old = sys.stdin, sys.stdout, sys.stderr
    shared = {}
    tools.simtrace_module().T = streams.events

    given = {}
    for c in calls:
        for k, tag in (c.get('share') or {}).items():
            given.setdefault(tools.tag_of(tag, c['args'][k]),
                             copy.deepcopy(c['args'][k]))

    def body(i):
        s.ids[_thread.get_ident()] = i
        s.gates[i].acquire()
        try:
            sys.settrace(s.tracer)
            try:
                results[i] = thread_call(calls[i], shared, streams, i)
            finally:
                sys.settrace(None)
        except Deadlock:
            results[i] = {'how': 'deadlock', 'code': None, 'exc': None,
                          'value': None, 'out': '', 'err': '', 'trace': []}
        finally:
            s.finish()

    SCHED = s
    threads = []
    seam.NODE.env['threads'] = True
    sys.stdout, sys.stderr = streams.out, streams.err
    try:
        for i in range(len(calls)):
            # started with the low-level API: no hidden locks of its own
            _thread.start_new_thread(body, (i,))
            threads.append(i)
        while len(s.ids) < len(calls):
            import time as _t
            nodemod.REAL_SLEEP(0.0005)
        s.cur = prog.get('first', 0) % len(calls)
        s.gates[s.cur].release()
        s.main.acquire()
    finally:
        SCHED = None
        sys.stdin, sys.stdout, sys.stderr = old
    seam.NODE.sched_info = {
        'trace': s.trace, 'lines': s.lines,
        'locs': sorted([t, f, l, c] for (t, f, l), c in s.seen.items())
        if prog.get('record') else None,
    }
    for k, v in shared.items():
        if not k.startswith('_') and v != given[k]:
            results[0].setdefault('residue', []).append(
                f'shared argument {k}: {given[k]!r} -> {v!r}')
    for i, r in enumerate(results):
        r['out'] = ''.join(streams.out.parts.get(i, []))
    return results


class PerThread:
    def __init__(self, s):
        self.s = s
        self.parts = {}

    encoding = 'utf-8'

    def write(self, x):
        i = self.s.ids.get(_thread.get_ident(), -1)
        self.parts.setdefault(i, []).append(x)
        return len(x)

    def clear(self):
        self.parts.pop(self.s.ids.get(_thread.get_ident(), -1), None)

    def __iter__(self):
        return iter(list(self.parts.get(
            self.s.ids.get(_thread.get_ident(), -1), ())))

    def flush(self):
        pass

    def isatty(self):
        return False


def nested_call(call):
    """A call from a callback in a thread: same thread, other output."""
    s, streams = SCHED, SCHED.streams
    i = s.me()
    held = [(x, x.parts.pop(i, None)) for x in (
        streams.out, streams.err, streams.events)]
    try:
        r = thread_call(call, {}, streams, i)
        r['out'] = ''.join(streams.out.parts.get(i, []))
    finally:
        for x, v in held:
            x.parts.pop(i, None)
            if v is not None:
                x.parts[i] = v
    return r


class ThreadStreams:
    def __init__(self, s):
        self.out = PerThread(s)
        self.err = PerThread(s)
        self.events = PerThread(s)      # what event modules record
        self.events.append = self.events.write


def thread_call(call, shared, streams, i):
    """As tools.run_call, API only, without touching the process streams."""
    import tools
    tracer = tools.Tracer()
    res = {'how': 'ok', 'code': 0, 'exc': None, 'value': None, 'out': '',
           'err': ''}
    try:
        res['value'] = tools.run_api(call, tracer, shared)
    except Deadlock:
        raise
    except BaseException as e:  # noqa: BLE001
        res['how'] = 'exc'
        res['code'] = 1
        res['exc'] = [type(e).__name__, str(e)[:500]]
    res['trace'] = tracer.trace
    if call.get('event_module'):
        res['trace'] = tracer.trace + list(streams.events)
        streams.events.clear()
    return res
