"""Fork nodes, collect results, and schedule concurrent nodes."""

import gc
import os
import pickle
import select
import shutil
import signal
import sys
import time
import zlib

import seam
import tools

REPO_SRC = os.environ.get('MDPOSIM_SRC', '/repo/src')
WALL_LIMIT = float(os.environ.get('MDPOSIM_NODE_WALL', '60'))
ENV_KEEP = ('PATH', 'HOME', 'LANG', 'PYTHONHASHSEED')
_mono = time.monotonic
REAL_SLEEP = time.sleep


class HarnessError(Exception):
    """Something is wrong with the machinery, not with the code under test."""


_warm = False


def warm():
    """Import the code under test once, under the (transparent) seam."""
    global _warm
    if _warm:
        return
    _warm = True
    import sched
    sched.patch_locks()
    seam.patch_all()
    sys.path.insert(0, REPO_SRC)
    sys.path.insert(1, os.path.dirname(os.path.abspath(__file__)))
    import importlib
    import pkgutil
    import mdpo
    if not os.path.abspath(mdpo.__file__).startswith(REPO_SRC + os.sep):
        raise HarnessError(f'mdpo imported from {mdpo.__file__}')
    for m in pkgutil.walk_packages(mdpo.__path__, 'mdpo.'):
        importlib.import_module(m.name)
    import datetime, tempfile, shutil, uuid, secrets  # noqa
    import encodings.latin_1, encodings.cp1252, encodings.ascii  # noqa
    import encodings.utf_16, encodings.iso8859_15, encodings.idna  # noqa
    import mdpo.cli
    # first-use imports and regex caches, so nodes start alike
    try:
        import importlib.metadata
        importlib.metadata.version('mdpo')
    except Exception:  # noqa: BLE001
        pass


def _line_tracer(node, plan):
    """Inject interrupts at the n-th executed line of mdpo."""
    mdpo_dir = REPO_SRC + os.sep
    counts = node.counts
    counts['lines'] = 0
    hot = counts['hot'] = []     # lines close to a writing operation
    mark = {'ops': 0}

    def local(frame, event, arg):
        if event == 'line' and node.active:
            n = counts['lines']
            counts['lines'] = n + 1
            if node.writes != mark['ops']:
                mark['ops'] = node.writes
                hot.extend(range(max(0, n - 6), n + 3))
            for f in plan:
                if f['nth'] == n:
                    f['nth'] = -1
                    node.fired.append(['line', n, f['effect'], None])
                    node.note('line', n, f['effect'],
                              os.path.basename(frame.f_code.co_filename),
                              frame.f_lineno)
                    node.before(f['effect'])
        return local

    def tracer(frame, event, arg):
        if frame.f_code.co_filename.startswith(mdpo_dir):
            return local
        return None
    sys.settrace(tracer)


def _child(world, prog, env, plan, rfd_wfd, channel):
    wfd = rfd_wfd
    try:
        gc.disable()
        os.chdir(world)
        os.umask(env.get('umask', 0o022))
        for k in list(os.environ):
            if k not in ENV_KEEP:
                del os.environ[k]
        for k, v in (env.get('environ') or {}).items():
            os.environ[k] = v
        tools.simtrace_module()
        lines = [f for f in plan if f['cls'] == 'line']
        node = seam.Node(world, env, [f for f in plan if f['cls'] != 'line'],
                         channel)

        def send(how, results, error=None):
            node.active = False
            node.channel = None
            sys.settrace(None)
            data = pickle.dumps({
                'how': how, 'results': results, 'log': node.log,
                'fired': node.fired, 'ops': node.ops, 'counts': node.counts,
                'clock': node.clock - env.get('clock', 1700000000.0),
                'error': error,
                'sched': getattr(node, 'sched_info', None),
            })
            view = memoryview(data)
            while view:
                k = seam.REAL['os_write'](wfd, view)
                view = view[k:]

        node.finish = lambda how: send(how, [{'how': how, 'code': None,
                                              'exc': None, 'value': None,
                                              'out': '', 'err': '',
                                              'trace': []}])
        seam.activate(node)
        if lines:
            _line_tracer(node, [dict(f) for f in lines])
        results = tools.run_program(prog)
        sys.settrace(None)
        node.before(node.point('end', None))
        how = results[-1]['how'] if results else 'ok'
        send(how, results)
    except BaseException:  # noqa: BLE001
        import traceback
        try:
            send('harness', [], traceback.format_exc())
        except BaseException:  # noqa: BLE001
            traceback.print_exc()
    finally:
        seam.REAL['exit'](0)


class Result:
    def __init__(self, d):
        self.__dict__.update(d)
        self.first = self.results[0] if self.results else None

    @property
    def success(self):
        return self.how == 'ok'


def _spawn(world, prog, env, plan, concurrent=False):
    r, w = os.pipe()
    chan = None
    if concurrent:
        c1r, c1w = os.pipe()     # child -> parent announcements
        c2r, c2w = os.pipe()     # parent -> child permissions
        chan = (c1r, c1w, c2r, c2w)
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        if chan:
            os.close(chan[0])
            os.close(chan[3])
        _child(world, prog, env, plan, w,
               (chan[2], chan[1]) if chan else None)
    os.close(w)
    if chan:
        os.close(chan[1])
        os.close(chan[2])
        return pid, r, chan[0], chan[3]
    return pid, r


def _collect(pid, r, limit):
    parts = []
    end = _mono() + limit
    while True:
        left = end - _mono()
        if left <= 0:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            os.close(r)
            return None
        ready, _, _ = select.select([r], [], [], left)
        if not ready:
            continue
        b = os.read(r, 1 << 20)
        if not b:
            break
        parts.append(b)
    os.close(r)
    _, status = os.waitpid(pid, 0)
    if not parts:
        if os.WIFSIGNALED(status):
            return {'how': 'signal', 'results': [
                {'how': 'signal', 'code': None, 'value': None, 'out': '',
                 'err': '', 'trace': [],
                 'exc': ['Signal', str(os.WTERMSIG(status))]}],
                'log': [], 'fired': [], 'ops': 0, 'counts': {}, 'clock': 0,
                'error': None, 'sched': None}
        raise HarnessError(f'node gave no result (status {status})')
    d = pickle.loads(b''.join(parts))
    if d['how'] == 'harness':
        raise HarnessError(d['error'])
    return d


HANG = {'how': 'hang', 'results': [
    {'how': 'hang', 'code': None, 'exc': None, 'value': None, 'out': '',
     'err': '', 'trace': []}], 'log': [], 'fired': [], 'ops': 0, 'counts': {},
    'clock': 0, 'error': None, 'sched': None}


def run(world, prog, env=None, plan=()):
    """Run one node to its end in the given world."""
    date(world, env or {})
    d = _collect(*_spawn(world, prog, env or {}, plan), WALL_LIMIT)
    return Result(d if d is not None else HANG)


def run_concurrent(world, progs, envs, plans, schedule):
    """Run nodes whose operations are interleaved by an explicit schedule.

    ``schedule`` maps a global step number to the node that goes next; at any
    other step the node that went last continues (lowest index first).
    """
    nodes = []
    date(world, envs[0])
    for prog, env, plan in zip(progs, envs, plans):
        nodes.append(_spawn(world, prog, env, plan, True))
    n = len(nodes)
    waiting = [None] * n
    done = [None] * n
    bufs = [b''] * n
    data = [b''] * n
    switch = {int(k): v for k, v in schedule}
    trace = []
    end = _mono() + WALL_LIMIT
    hung = False

    def advance(i):
        """Wait until node i announces its next operation or finishes."""
        pid, r, cr, cw = nodes[i]
        while True:
            left = end - _mono()
            if left <= 0:
                return False
            ready, _, _ = select.select([r, cr], [], [], left)
            if cr in ready:
                b = os.read(cr, 65536)
                if b:
                    bufs[i] += b
                    if len(bufs[i]) >= 4:
                        k = int.from_bytes(bufs[i][:4], 'big')
                        if len(bufs[i]) >= 4 + k:
                            waiting[i] = bufs[i][4:4 + k].decode(
                                'utf-8', 'surrogateescape').strip()
                            bufs[i] = bufs[i][4 + k:]
                            return True
                    continue
            if r in ready:
                b = os.read(r, 1 << 20)
                if b:
                    data[i] += b
                    continue
                os.close(r)
                os.close(cr)
                os.close(cw)
                _, status = os.waitpid(pid, 0)
                if not data[i]:
                    raise HarnessError(f'node {i} gave no result ({status})')
                d = pickle.loads(data[i])
                if d['how'] == 'harness':
                    raise HarnessError(d['error'])
                done[i] = Result(d)
                waiting[i] = None
                return True

    for i in range(n):
        if not advance(i):
            hung = True
    cur = 0
    step = 0
    while not hung:
        runnable = [i for i in range(n) if waiting[i] is not None]
        if not runnable:
            break
        if step in switch:
            cur = runnable[switch[step] % len(runnable)]
        elif waiting[cur] is None:
            cur = runnable[0]
        trace.append(f'{cur} {waiting[cur]}')
        waiting[cur] = None
        os.write(nodes[cur][3], b'g')
        step += 1
        if not advance(cur):
            hung = True
    if hung:
        for i in range(n):
            if done[i] is None:
                os.kill(nodes[i][0], signal.SIGKILL)
                os.waitpid(nodes[i][0], 0)
                for fd in nodes[i][1:]:
                    os.close(fd)
                done[i] = Result(HANG)
    return done, trace


# -- worlds ------------------------------------------------------------------

class Scratch:
    """Scratch directory tree of one worker, created and removed here."""

    def __init__(self):
        base = '/dev/shm'
        if not (os.path.isdir(base) and os.access(base, os.W_OK)):
            import tempfile
            base = tempfile.gettempdir()
        self.root = os.path.join(base, f'mdposim-{os.getpid()}')
        shutil.rmtree(self.root, ignore_errors=True)
        os.mkdir(self.root)
        self.n = 0

    def world(self, state=None):
        self.n += 1
        d = os.path.join(self.root, f'w{self.n}')
        os.mkdir(d)
        if state:
            restore(d, state)
        return d

    def drop(self, d):
        assert d.startswith(self.root + os.sep)
        shutil.rmtree(d, ignore_errors=True)

    def close(self):
        shutil.rmtree(self.root, ignore_errors=True)


def date(world, env):
    """Modification times of all files, as the environment says."""
    k = env.get('mtimes')
    base = int(env.get('clock', 1700000000.0))
    for d, dirs, names in os.walk(world):
        for x in sorted(names) + sorted(dirs):
            p = os.path.join(d, x)
            t = base
            if k is not None:
                h = zlib.crc32(f'{k} {os.path.relpath(p, world)}'.encode())
                t = max(0, base - (h % 3 - (h >> 8) % 50) *
                        (3600 if h & 64 else 1))
            os.utime(p, ns=(t * 10 ** 9, t * 10 ** 9), follow_symlinks=False)


def restore(world, state):
    """Write a world state into an empty directory."""
    for p in sorted(state):
        full = os.path.join(world, p)
        if state[p] is None:
            os.makedirs(full, exist_ok=True)
        else:
            d = os.path.dirname(full)
            if not os.path.isdir(d):
                os.makedirs(d)
            if state[p].startswith(b'->'):
                os.symlink(os.fsdecode(state[p][2:]), full)
            else:
                with open(full, 'wb') as f:
                    f.write(state[p])


state = seam.world_state
