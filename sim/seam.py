"""The seam: everything nondeterministic or failing that a simulated mdpo
process ("node") can touch goes through this module.

It is installed inside a forked child process that then runs the real mdpo
code.  Files live in a scratch directory (the "world"), and every operation on
them is interposed, counted, logged and may be delayed (concurrent mode),
fail, be short, be torn or be the instant at which the process is killed or
the machine loses power.  Clock, randomness, pid, directory order, locale and
the standard streams are simulated too.
"""

import _io
import datetime as _datetime
import errno
import io
import os
import random
import stat as _stat
import sys
import time

REAL = {
    'open': open, 'os_open': os.open, 'os_close': os.close,
    'os_write': os.write, 'os_read': os.read, 'os_fsync': os.fsync,
    'replace': os.replace, 'rename': os.rename, 'unlink': os.unlink,
    'remove': os.remove, 'mkdir': os.mkdir, 'rmdir': os.rmdir,
    'scandir': os.scandir, 'listdir': os.listdir, 'stat': os.stat,
    'link': os.link, 'symlink': os.symlink, 'truncate': os.truncate,
    'ftruncate': os.ftruncate, 'chmod': os.chmod, 'open_code': _io.open_code,
    'fdatasync': os.fdatasync, 'exit': os._exit, 'pwrite': os.pwrite,
    'writev': os.writev, 'sendfile': os.sendfile, 'urandom': os.urandom,
    'copy_file_range': os.copy_file_range,
}

ERRNO = {
    'eio': errno.EIO, 'enospc': errno.ENOSPC, 'eacces': errno.EACCES,
    'erofs': errno.EROFS, 'emfile': errno.EMFILE, 'enoent': errno.ENOENT,
    'edquot': errno.EDQUOT, 'epipe': errno.EPIPE, 'enomem': errno.ENOMEM,
    'estale': errno.ESTALE,
}

MAX_OPS = 60000
PIECES = 3000      # operations of a run that may be cut in small pieces

# which effects make sense on which operation class
EFFECTS = {
    'open_r': ['eio', 'eacces', 'emfile', 'enomem', 'nomem', 'interrupt',
               'crash', 'power'],
    'open_w': ['eio', 'eacces', 'emfile', 'enospc', 'erofs', 'edquot',
               'nomem', 'interrupt', 'interrupt_after', 'crash',
               'crash_after', 'power', 'power_after'],
    'read': ['eio', 'estale', 'nomem', 'interrupt', 'crash', 'power'],
    'write': ['eio', 'enospc', 'edquot', 'nomem', 'interrupt', 'torn_eio',
              'torn_enospc', 'torn_interrupt', 'torn_crash', 'crash',
              'crash_after', 'power', 'torn_power', 'power_after'],
    'close': ['eio', 'enospc', 'interrupt', 'crash', 'crash_after', 'power',
              'power_after'],
    'fsync': ['eio', 'enospc', 'interrupt', 'crash', 'crash_after', 'power',
              'power_after'],
    'rename': ['eio', 'eacces', 'enospc', 'erofs', 'interrupt', 'crash',
               'crash_after', 'power', 'power_after'],
    'unlink': ['eio', 'eacces', 'interrupt', 'crash', 'crash_after'],
    'mkdir': ['eio', 'eacces', 'enospc', 'erofs', 'interrupt', 'crash',
              'crash_after'],
    'meta': ['crash', 'crash_after', 'interrupt'],
    'trunc': ['eio', 'crash', 'crash_after', 'interrupt', 'power',
              'power_after'],
    'stdout': ['eio', 'epipe', 'enospc', 'interrupt', 'crash'],
    'stdin': ['eio', 'interrupt', 'crash'],
    'code': ['eio', 'eacces', 'interrupt', 'nomem'],
    'end': ['power'],
}
WRITES = ('open_w', 'write', 'close', 'fsync', 'rename', 'unlink', 'trunc')
KILLS = ('crash', 'power')


def is_kill(effect):
    return 'crash' in effect or 'power' in effect


class Node:
    """State of the simulated process (one per forked child)."""

    def __init__(self, world, env, plan, channel=None):
        self.world = os.path.realpath(world)
        self.env = env
        self.plan = [dict(f) for f in plan]
        self.channel = channel       # concurrent mode: (read fd, write fd)
        self.log = []
        self.fired = []
        self.ops = 0
        self.writes = 0
        self.counts = {}
        self.fds = {}
        self.active = False
        self.finish = None           # called with an outcome when killed
        self.faultable_depth = 0
        # durability tracking (power loss)
        self.durable = {}            # ino -> bytes durable so far
        self.journal = []            # directory operations, for undo
        self.clock = env.get('clock', 1700000000.0)
        self.clock_step = env.get('clock_step', 0.001)
        self.rng = random.Random(env.get('rng', 0))
        self.names = 0
        self.alias = {}

    # -- helpers -------------------------------------------------------
    def rel(self, path):
        """Path inside the world or None."""
        if isinstance(path, int):
            return self.fds.get(path)
        try:
            p = os.fspath(path)
        except TypeError:
            return None
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        full = os.path.normpath(os.path.join(os.getcwd(), p))
        if full == self.world:
            return '.'
        if full.startswith(self.world + os.sep):
            return full[len(self.world) + 1:]
        return None

    def wall(self):
        """The clock of the machine, that may jump."""
        t = self.clock
        for at, jump in self.env.get('jumps', ()):
            if self.ops >= at:
                t += jump
        return min(max(t, 0.0), 250000000000.0)

    def stamp(self, what):
        """Date a file that changed now."""
        g = self.env.get('grain', 1e-9)
        t = int(self.wall() / g) * g
        try:
            os.utime(what, ns=(int(t * 1e9), int(t * 1e9)))
        except OSError:
            pass

    def note(self, *parts):
        self.log.append(' '.join(str(p) for p in parts))

    # -- the decision point of every operation --------------------------
    def point(self, cls, path, size=None):
        """Announce an operation; return the effect injected at it."""
        if not self.active:
            return None
        self.ops += 1
        if cls in WRITES:
            self.writes += 1
        n = self.counts.get(cls, 0)
        self.counts[cls] = n + 1
        if self.ops > MAX_OPS:
            self.kill('runaway')
        self.clock += self.clock_step
        if self.channel:
            self.handshake(cls, path)
        eff = None
        for f in self.plan:
            if f.get('done'):
                continue
            if f.get('path') is not None and f['path'] != path:
                continue
            if f['cls'] == cls or (f['cls'] == 'any' and cls in EFFECTS):
                k = f.setdefault('seen', 0)
                f['seen'] = k + 1
                if k >= f['nth'] and k < f['nth'] + f.get('times', 1):
                    if k == f['nth'] + f.get('times', 1) - 1:
                        f['done'] = True
                    eff = f['effect']
                    if f['cls'] == 'any' and eff not in EFFECTS[cls] \
                            and eff != 'short':
                        eff = 'crash' if is_kill(eff) else 'eio'
                        if eff not in EFFECTS[cls]:
                            eff = 'crash'
                    self.fired.append([cls, n, eff, path])
                    self.arg = f.get('arg', 0)
                    break
        self.note(self.ops, cls, path if path is not None else '-',
                  size if size is not None else '', eff or '')
        return eff

    def handshake(self, cls, path):
        msg = f'{cls}\t{path}\n'.encode('utf-8', 'surrogateescape')
        REAL['os_write'](self.channel[1], len(msg).to_bytes(4, 'big') + msg)
        if not REAL['os_read'](self.channel[0], 1):
            REAL['exit'](99)

    def before(self, eff):
        """Apply the effects that happen instead of the operation."""
        if eff is None:
            return
        if eff in ERRNO:
            raise OSError(ERRNO[eff], os.strerror(ERRNO[eff]), 'simulated')
        if eff == 'interrupt':
            raise KeyboardInterrupt('simulated')
        if eff == 'nomem':
            raise MemoryError('simulated')
        if eff == 'crash':
            self.kill('killed')
        if eff == 'power':
            self.power_loss()
            self.kill('power')

    def after(self, eff):
        if eff is None:
            return
        if eff == 'interrupt_after':
            raise KeyboardInterrupt('simulated')
        if eff == 'crash_after':
            self.kill('killed')
        if eff == 'power_after':
            self.power_loss()
            self.kill('power')

    def kill(self, how):
        self.active = False
        self.finish(how)
        REAL['exit'](137)

    # -- durability ------------------------------------------------------
    def _content(self, path):
        try:
            with RealFileIO(path, 'rb') as f:
                return f.readall()
        except OSError:
            return None

    def touch(self, path):
        """An inode is about to be modified: remember what is durable."""
        if not self.env.get('power'):
            return
        full = os.path.join(self.world, path)
        try:
            ino = REAL['stat'](full).st_ino
        except OSError:
            return
        if ino not in self.durable:
            self.durable[ino] = self._content(full)

    def synced(self, fd_or_path):
        if not self.env.get('power'):
            return
        try:
            ino = REAL['stat'](fd_or_path).st_ino
        except OSError:
            return
        path = self.fds.get(fd_or_path) if isinstance(fd_or_path, int) \
            else fd_or_path
        c = self._content(os.path.join(self.world, path))
        if c is None:     # renamed or unlinked since opened
            for p in self._walk():
                if REAL['stat'](p).st_ino == ino:
                    c = self._content(p)
                    break
        if c is not None:
            self.durable[ino] = c

    def _walk(self):
        for d, dirs, files in os.walk(self.world):
            dirs.sort()
            for f in sorted(files):
                yield os.path.join(d, f)

    def journal_op(self, kind, path, other=None):
        if not self.env.get('power'):
            return
        full = os.path.join(self.world, path)
        rec = [kind, full, None if other is None
               else os.path.join(self.world, other), None]
        tgt = rec[2] if kind == 'rename' else full
        if kind in ('rename', 'unlink'):
            try:
                st = REAL['stat'](tgt)
                c = self.durable.get(st.st_ino)
                rec[3] = c if c is not None else self._content(tgt)
            except OSError:
                rec[3] = None
        self.journal.append(rec)

    def power_loss(self):
        """Apply what a power cut does to data that was never synced.

        Directory operations survive up to a cut; file data that was not
        fsynced survives whole, as a prefix, or not at all.
        """
        was, self.active = self.active, False
        try:
            rng = random.Random(self.env.get('power_seed', 0))
            # unsynced file data
            for p in list(self._walk()):
                if os.path.islink(p):
                    continue
                ino = REAL['stat'](p).st_ino
                if ino not in self.durable:
                    continue
                d = self.durable[ino]
                cur = self._content(p)
                if cur == d:
                    continue
                mode = rng.choice(['lost', 'lost', 'prefix', 'kept', 'old'])
                if mode == 'lost':
                    new = b''
                elif mode == 'prefix':
                    new = cur[:rng.randrange(len(cur) + 1)] if cur else b''
                elif mode == 'old':
                    new = d if d is not None else b''
                else:
                    new = cur
                self.note('power', os.path.relpath(p, self.world), mode)
                with RealFileIO(p, 'wb') as f:
                    f.write(new)
            # directory operations not yet on disk
            keep = len(self.journal)
            if self.journal and rng.random() < .4:
                keep = rng.randrange(len(self.journal) + 1)
            for kind, path, other, saved in reversed(self.journal[keep:]):
                self.note('power-undo', kind, os.path.relpath(path, self.world))
                try:
                    if kind == 'rename':
                        REAL['replace'](other, path)
                        if saved is not None:
                            with RealFileIO(other, 'wb') as f:
                                f.write(saved)
                    elif kind == 'unlink' and saved is not None:
                        with RealFileIO(path, 'wb') as f:
                            f.write(saved)
                    elif kind == 'create':
                        REAL['unlink'](path)
                    elif kind == 'mkdir':
                        REAL['rmdir'](path)
                except OSError:
                    pass
        finally:
            self.active = was


RealFileIO = io.FileIO
NODE = None
_SHORT = (1, 2, 3, 7, 16, 64)


class SimFileIO(RealFileIO):
    """Raw file whose reads, writes and close pass through the node."""

    def __init__(self, file, mode='r', closefd=True, opener=None, rel=None):
        self._rel = rel
        self._sim_closed = False
        self._wrote = False
        super().__init__(file, mode, closefd, opener)
        n = NODE
        if n is not None:
            n.fds[self.fileno()] = rel

    def readinto(self, buf):
        n = NODE
        if n.active:
            eff = n.point('read', self._rel, None)
            n.before(eff)
            lim = n.env.get('chunk') if n.counts['read'] < PIECES else 0
            if lim:
                lim = _SHORT[n.rng.randrange(len(_SHORT))] if lim == -1 \
                    else lim
                with memoryview(buf) as m:
                    b = m.cast('B')
                    if len(b) > lim:
                        return super().readinto(b[:lim])
        return super().readinto(buf)

    def read(self, size=-1):
        if size is None or size < 0:
            return self.readall()
        b = bytearray(size)
        k = self.readinto(b)
        return bytes(b[:k])

    def readall(self):
        out = []
        while True:
            b = bytearray(65536)
            k = self.readinto(b)
            if not k:
                return b''.join(out)
            out.append(bytes(b[:k]))

    def write(self, data):
        n = NODE
        if not n.active:
            return super().write(data)
        with memoryview(data) as m:
            b = bytes(m)
        eff = n.point('write', self._rel, len(b))
        n.touch(self._rel)
        if eff and eff.startswith('torn_'):
            k = n.arg % (len(b) + 1) if b else 0
            super().write(b[:k])
            n.stamp(self.fileno())
            n.before(eff[5:])
            return k
        n.before(eff)
        lim = n.env.get('wchunk') if n.counts['write'] < PIECES else 0
        if lim and len(b) > lim:
            k = super().write(b[:lim])
        else:
            k = super().write(b)
        n.stamp(self.fileno())
        n.after(eff)
        return k

    def truncate(self, size=None):
        n = NODE
        eff = n.point('trunc', self._rel) if n.active else None
        n.before(eff)
        n.touch(self._rel)
        r = super().truncate(size)
        n.stamp(self.fileno())
        n.after(eff)
        return r

    def close(self):
        n = NODE
        if self.closed or self._sim_closed:
            return super().close()
        self._sim_closed = True
        eff = n.point('close', self._rel) if n.active else None
        if eff in KILLS:
            n.before(eff)
        try:
            fd = self.fileno()
        except (OSError, ValueError):
            fd = None
        super().close()
        if fd is not None:
            n.fds.pop(fd, None)
        n.before(eff)
        n.after(eff)
        return None


def _is_write(mode):
    return any(c in mode for c in 'wxa+')


def sim_open(file, mode='r', buffering=-1, encoding=None, errors=None,
             newline=None, closefd=True, opener=None):
    n = NODE
    if n is None or not n.active:
        return REAL['open'](file, mode, buffering, encoding, errors, newline,
                            closefd, opener)
    rel = n.rel(file)
    if rel is None:
        return REAL['open'](file, mode, buffering, encoding, errors, newline,
                            closefd, opener)
    binary = 'b' in mode
    rawmode = mode.replace('b', '').replace('t', '').replace('U', '')
    if not binary and encoding is None:
        encoding = n.env.get('locale', 'utf-8')
    eff = None
    if not isinstance(file, int) and opener is None:
        cls = 'open_w' if _is_write(rawmode) else 'open_r'
        eff = n.point(cls, rel, rawmode)
        n.before(eff)
        if cls == 'open_w':
            if 'w' in rawmode:
                n.touch(rel)
            full = os.path.join(n.world, rel)
            existed = os.path.lexists(full)
    else:
        existed = True
        cls = None
    # errors of argument checking come from the real constructors
    if 'b' not in mode and buffering == 0:
        raise ValueError("can't have unbuffered text I/O")
    if binary and encoding is not None:
        raise ValueError('binary mode doesn\'t take an encoding argument')
    raw = SimFileIO(file, rawmode, closefd, opener, rel=rel)
    if cls == 'open_w' and ('w' in rawmode or not existed):
        n.stamp(raw.fileno())
    if cls == 'open_w' and not existed:
        n.journal_op('create', rel)
        if n.env.get('power'):
            n.durable[os.fstat(raw.fileno()).st_ino] = b''
    if eff in ('interrupt_after', 'crash_after', 'power_after'):
        if eff == 'interrupt_after':
            # as a signal delivered right after the call returned: the
            # object is dropped, its descriptor is closed by the interpreter
            RealFileIO.close(raw)
            raw._sim_closed = True
        n.after(eff)
    if buffering == 0:
        return raw
    size = buffering if buffering > 1 else io.DEFAULT_BUFFER_SIZE
    small = n.env.get('bufsize')
    if small:
        size = small
    if '+' in rawmode:
        buf = io.BufferedRandom(raw, size)
    elif _is_write(rawmode):
        buf = io.BufferedWriter(raw, size)
    else:
        buf = io.BufferedReader(raw, size)
    if binary:
        return buf
    text = io.TextIOWrapper(buf, encoding, errors, newline, buffering == 1)
    text.mode = mode
    return text


def sim_open_code(path):
    n = NODE
    if n is not None and n.active:
        rel = n.rel(path)
        if rel is not None:
            n.before(n.point('code', rel))
    return REAL['open_code'](path)


def sim_os_open(path, flags, mode=0o777, *, dir_fd=None):
    n = NODE
    if n is None or not n.active or dir_fd is not None:
        return REAL['os_open'](path, flags, mode, dir_fd=dir_fd)
    rel = n.rel(path)
    if rel is None:
        return REAL['os_open'](path, flags, mode)
    w = bool(flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC))
    eff = n.point('open_w' if w else 'open_r', rel, flags)
    if eff == 'interrupt_after':
        # a raw descriptor has no owner yet when a signal is delivered right
        # after the call: no code can close it, so the signal comes before
        eff = 'interrupt'
    n.before(eff)
    if flags & os.O_TRUNC:
        n.touch(rel)
    existed = os.path.lexists(os.path.join(n.world, rel))
    fd = REAL['os_open'](path, flags, mode)
    n.fds[fd] = rel
    if w and (not existed or flags & os.O_TRUNC):
        n.stamp(fd)
    if w and not existed:
        n.journal_op('create', rel)
        if n.env.get('power'):
            n.durable[os.fstat(fd).st_ino] = b''
    n.after(eff)
    return fd


def sim_os_close(fd):
    n = NODE
    if n is None or not n.active or fd not in n.fds:
        return REAL['os_close'](fd)
    rel = n.fds.pop(fd)
    eff = n.point('close', rel)
    if eff in KILLS:
        n.before(eff)
    REAL['os_close'](fd)
    n.before(eff)
    n.after(eff)


def sim_os_write(fd, data):
    n = NODE
    if n is None or not n.active or fd not in n.fds:
        return REAL['os_write'](fd, data)
    rel = n.fds[fd]
    b = bytes(data)
    eff = n.point('write', rel, len(b))
    n.touch(rel)
    if eff and eff.startswith('torn_'):
        k = n.arg % (len(b) + 1) if b else 0
        REAL['os_write'](fd, b[:k])
        n.stamp(fd)
        n.before(eff[5:])
        return k
    n.before(eff)
    lim = n.env.get('wchunk') if n.counts['write'] < PIECES else 0
    k = REAL['os_write'](fd, b[:lim] if lim else b)
    n.stamp(fd)
    n.after(eff)
    return k


def sim_os_read(fd, size):
    n = NODE
    if n is None or not n.active or fd not in n.fds:
        return REAL['os_read'](fd, size)
    n.before(n.point('read', n.fds[fd], size))
    lim = n.env.get('chunk')
    if lim and lim > 0:
        size = min(size, lim)
    return REAL['os_read'](fd, size)


def _sync(real):
    def sim_sync(fd):
        n = NODE
        no = fd if isinstance(fd, int) else fd.fileno()
        if n is None or not n.active or no not in n.fds:
            return real(fd)
        eff = n.point('fsync', n.fds[no])
        n.before(eff)
        n.synced(no)      # durable from here on (nothing is really synced)
        n.after(eff)
    return sim_sync


def _two_paths(name, cls):
    real = REAL[name]

    def sim(src, dst, **kw):
        n = NODE
        if n is None or not n.active:
            return real(src, dst, **kw)
        a, b = n.rel(src), n.rel(dst)
        if a is None and b is None:
            return real(src, dst, **kw)
        eff = n.point(cls, f'{a}>{b}')
        n.before(eff)
        if cls == 'rename':
            n.journal_op('rename', a, b)
        r = real(src, dst, **kw)
        n.after(eff)
        return r
    return sim


def _one_path(name, cls, journal=None):
    real = REAL[name]

    def sim(path, *args, **kw):
        n = NODE
        if n is None or not n.active or kw.get('dir_fd') is not None:
            return real(path, *args, **kw)
        a = n.rel(path)
        if a is None:
            return real(path, *args, **kw)
        eff = n.point(cls, a)
        n.before(eff)
        if cls == 'trunc':
            n.touch(a)
        if journal:
            if journal == 'mkdir':
                r = real(path, *args, **kw)
                n.journal_op(journal, a)
                n.after(eff)
                return r
            n.journal_op(journal, a)
        r = real(path, *args, **kw)
        n.after(eff)
        return r
    return sim


def _order(n, rel, names):
    names = sorted(names)
    seed = n.env.get('dirorder', 0)
    if seed == 'rev':
        names.reverse()
    elif seed:
        random.Random(f'{seed}:{rel}').shuffle(names)
    return names


class SimScandir:
    def __init__(self, entries):
        self._it = iter(entries)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self._it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def close(self):
        self._it = iter(())


def sim_scandir(path='.'):
    n = NODE
    if n is None or not n.active:
        return REAL['scandir'](path)
    rel = n.rel(path if path is not None else '.')
    if rel is None:
        return REAL['scandir'](path)
    n.point('list', rel)
    with REAL['scandir'](path) as it:
        ent = {os.fsdecode(e.name): e for e in it}
    return SimScandir([ent[k] for k in _order(n, rel, ent)])


def sim_listdir(path='.'):
    n = NODE
    if n is None or not n.active:
        return REAL['listdir'](path)
    rel = n.rel(path if path is not None else '.')
    if rel is None:
        return REAL['listdir'](path)
    n.point('list', rel)
    names = REAL['listdir'](path)
    if names and isinstance(names[0], bytes):
        return [os.fsencode(x) for x in
                _order(n, rel, [os.fsdecode(y) for y in names])]
    return _order(n, rel, names)


def sim_stat(path, *a, **kw):
    n = NODE
    if n is not None and n.active and n.channel \
            and not isinstance(path, int) and kw.get('dir_fd') is None:
        rel = n.rel(path)
        if rel is not None:
            n.point('stat', rel)
    return REAL['stat'](path, *a, **kw)


class SimStream(io.TextIOBase):
    """stdout or stderr of the node."""

    def __init__(self, name):
        self._name = name
        self.parts = []

    encoding = 'utf-8'
    errors = 'strict'

    def writable(self):
        return True

    def isatty(self):
        return False

    def fileno(self):
        return 1 if self._name == 'stdout' else 2

    def write(self, s):
        n = NODE
        if n.active and self._name == 'stdout':
            n.before(n.point('stdout', None, len(s)))
        self.parts.append(s)
        return len(s)

    def flush(self):
        pass

    def getvalue(self):
        return ''.join(self.parts)


class SimStdinRaw(io.RawIOBase):
    """Standard input that arrives in pieces."""

    def __init__(self, data, tty, chunk):
        self._data = data
        self._tty = tty
        self._chunk = chunk
        self._pos = 0

    def readable(self):
        return True

    def isatty(self):
        return self._tty

    def fileno(self):
        return 0

    def readinto(self, buf):
        n = NODE
        n.before(n.point('stdin', None))
        k = min(len(buf), self._chunk or len(buf))
        r = self._data[self._pos:self._pos + k]
        self._pos += len(r)
        buf[:len(r)] = r
        return len(r)


def SimStdin(text, tty, chunk):
    """The standard input stream, as the interpreter builds it."""
    raw = SimStdinRaw(text.encode('utf-8'), tty, chunk)
    return io.TextIOWrapper(io.BufferedReader(raw), encoding='utf-8')


class SimDateTime(_datetime.datetime):
    @classmethod
    def now(cls, tz=None):
        n = NODE
        if n is None:
            return super().now(tz)
        return cls.fromtimestamp(_now(), tz or _datetime.timezone.utc) \
            .replace(tzinfo=tz)

    @classmethod
    def utcnow(cls):
        return cls.now()

    @classmethod
    def today(cls):
        return cls.now()


def _now(wall=True):
    n = NODE
    if n is None:
        return 0.0
    n.clock += n.clock_step
    if wall:
        return n.wall()
    return n.clock


def _sim_sleep(s):
    NODE.clock += s
    if NODE.active:
        NODE.point('sleep', None, s)


def patch_all():
    """Interpose everything; transparent until a node is activated.

    Called once in each worker before mdpo is imported, so that names bound at
    import time are the simulated ones too.
    """
    import builtins
    import locale
    import shutil
    import tempfile

    builtins.open = sim_open
    io.open = sim_open
    io.FileIO = SimPublicFileIO
    _io.open_code = sim_open_code
    io.open_code = sim_open_code
    os.open = sim_os_open
    os.close = sim_os_close
    os.write = sim_os_write
    os.read = sim_os_read
    os.fsync = _sync(REAL['os_fsync'])
    os.fdatasync = _sync(REAL['fdatasync'])
    os.replace = _two_paths('replace', 'rename')
    os.rename = _two_paths('rename', 'rename')
    os.link = _two_paths('link', 'meta')
    os.unlink = _one_path('unlink', 'unlink', 'unlink')
    os.remove = _one_path('remove', 'unlink', 'unlink')
    os.mkdir = _one_path('mkdir', 'mkdir', 'mkdir')
    os.rmdir = _one_path('rmdir', 'meta')
    os.chmod = _one_path('chmod', 'meta')
    os.truncate = _one_path('truncate', 'trunc')
    os.scandir = sim_scandir
    os.listdir = sim_listdir
    os.stat = sim_stat

    def guarded(real):
        def fn(*a, **k):
            if NODE is None or not NODE.active:
                return real(*a, **k)
            raise OSError(errno.ENOSYS, 'not supported by the simulated disk')
        return fn
    os.sendfile = guarded(REAL['sendfile'])
    os.copy_file_range = guarded(REAL['copy_file_range'])
    shutil._USE_CP_SENDFILE = False

    real_pid = os.getpid
    os.getpid = lambda: real_pid() if NODE is None \
        else NODE.env.get('pid', 4242)

    def urandom(k):
        if NODE is None:
            return REAL['urandom'](k)
        return bytes(NODE.rng.randrange(256) for _ in range(k))
    os.urandom = urandom
    random._urandom = urandom

    real_names = tempfile._get_candidate_names

    def candidate_names():
        if NODE is None:
            return real_names()
        return NODE.tempnames
    tempfile._get_candidate_names = candidate_names

    def clocked(real, scale=None, wall=False):
        def fn(*a):
            if NODE is None:
                return real(*a)
            v = _now(wall)
            return int(v * 1e9) if scale else v
        return fn
    time.time = clocked(time.time, wall=True)
    time.monotonic = clocked(time.monotonic)
    time.perf_counter = clocked(time.perf_counter)
    time.time_ns = clocked(time.time_ns, True, wall=True)
    time.monotonic_ns = clocked(time.monotonic_ns, True)
    time.perf_counter_ns = clocked(time.perf_counter_ns, True)

    real_gm, real_ctime = time.gmtime, time.ctime
    time.gmtime = lambda *a: real_gm(*a) if NODE is None or a \
        else real_gm(_now())
    time.localtime = time.gmtime
    time.ctime = lambda *a: real_ctime(*a) if NODE is None or a \
        else real_ctime(_now())
    real_strf = time.strftime
    time.strftime = lambda *a: real_strf(*a) if NODE is None or len(a) > 1 \
        else real_strf(*a, time.gmtime(_now()))
    real_sleep = time.sleep
    time.sleep = lambda s: real_sleep(s) if NODE is None else _sim_sleep(s)
    _datetime.datetime = SimDateTime

    real_pref, real_enc = locale.getpreferredencoding, locale.getencoding
    locale.getpreferredencoding = lambda do_setlocale=True: \
        real_pref(do_setlocale) if NODE is None \
        else NODE.env.get('locale', 'utf-8')
    locale.getencoding = lambda: real_enc() if NODE is None \
        else NODE.env.get('locale', 'utf-8')


def activate(node):
    """Turn this forked process into a node."""
    global NODE
    NODE = node
    pid = node.env.get('pid', 4242)

    def names():
        i = 0
        while True:
            i += 1
            yield f'sim{pid}x{i:04d}'
    node.tempnames = names()
    random.seed(node.env.get('rng', 0))
    sys.unraisablehook = lambda *a: None
    node.active = True


class SimPublicFileIO(SimFileIO):
    def __init__(self, file, mode='r', closefd=True, opener=None):
        n = NODE
        rel = n.rel(file) if n and n.active else None
        if n and n.active and rel is not None and not isinstance(file, int):
            w = _is_write(mode)
            n.before(n.point('open_w' if w else 'open_r', rel, mode))
            if w:
                n.touch(rel)
        super().__init__(file, mode, closefd, opener, rel=rel)


def world_state(world):
    """Every path of a world: bytes of files, None for directories."""
    out = {}
    for d, dirs, files in os.walk(world):
        dirs.sort()
        r = os.path.relpath(d, world)
        for x in dirs:
            out[os.path.normpath(os.path.join(r, x)) + '/'] = None
        for x in sorted(files):
            p = os.path.join(d, x)
            if _stat.S_ISREG(os.lstat(p).st_mode):
                with open(p, 'rb') as f:
                    out[os.path.normpath(os.path.join(r, x))] = f.read()
            else:
                out[os.path.normpath(os.path.join(r, x))] = b'->' + \
                    os.fsencode(os.readlink(p))
    return out
