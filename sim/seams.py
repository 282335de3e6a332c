"""Seams: every source of nondeterminism metaknowledge can meet is routed through here.

Importing this module installs dispatchers over open/io.open, os.*, time.*, threading.*,
urlopen, input and the terminal.  With no World active they fall straight through to the
real functions, so importing them changes nothing.  With a World active (one simulated run)
every call on a path below the World's scratch root, every clock reading, every sleep, every
thread start and every network request is decided by the World.

The module must be imported before metaknowledge, so that `from x import y` inside the code
under test binds the dispatchers as well.
"""
import builtins
import datetime
import errno
import hashlib
import io
import os
import re
import shutil
import stat as statmod
import sys
import _thread
import threading
import time
import urllib.error
import urllib.request
from collections import Counter

REAL = {
    'open': io.open, 'listdir': os.listdir, 'scandir': os.scandir, 'remove': os.remove, 'unlink': os.unlink,
    'rename': os.rename, 'replace': os.replace, 'stat': os.stat, 'fsync': os.fsync, 'get_terminal_size': os.get_terminal_size,
    'shutil_get_terminal_size': shutil.get_terminal_size,
    'time': time.time, 'monotonic': time.monotonic, 'perf_counter': time.perf_counter, 'sleep': time.sleep,
    'urlopen': urllib.request.urlopen, 'input': builtins.input,
    'Thread_start': threading.Thread.start, 'Thread_join': threading.Thread.join, 'Thread_is_alive': threading.Thread.is_alive,
    'Lock': threading.Lock, 'RLock': threading.RLock,
    'datetime': datetime.datetime, 'getpid': os.getpid, 'stdout': sys.stdout, 'stderr': sys.stderr,
    'truncate': os.truncate, 'os_open': os.open, 'urlretrieve': urllib.request.urlretrieve,
}

ACTIVE = None          # the World of the run in progress


class HarnessError(Exception):
    """The simulator itself went wrong: never reported as a violation."""


class Violation(Exception):
    def __init__(self, cls, msg):
        super().__init__('[{}] {}'.format(cls, msg))
        self.cls = cls
        self.msg = msg


class SimCrash(BaseException):
    """Power loss: nothing after this instant reaches the disk."""


class Budget(BaseException):
    """The run used up its step budget (reported as 'did not terminate')."""


def _text(p):
    if isinstance(p, bytes):
        return os.fsdecode(p)
    return os.fspath(p)


class SimRaw(io.RawIOBase):
    """A file on the simulated disk.  Real bytes in the scratch directory, simulated behaviour."""

    def __init__(self, world, fd, rel, readable, writable, name):
        super().__init__()
        self.w, self.fd, self.rel = world, fd, rel
        self._r, self._wr = readable, writable
        self._closed_fd = False
        self.name = name
        self.mode = ('rb+' if readable and writable else 'rb' if readable else 'wb')
        world.handles.add(self)

    def readable(self):
        return self._r

    def writable(self):
        return self._wr

    def seekable(self):
        return True

    def fileno(self):
        return self.fd

    def isatty(self):
        return False

    def _check(self):
        if self._closed_fd:
            raise ValueError('I/O operation on closed file.')

    def readinto(self, b):
        self._check()
        if not self._r:
            raise io.UnsupportedOperation('not readable')
        w = self.w
        f = w.step('read', self.rel)
        n = len(b)
        if w.io_chunk:
            n = min(n, w.io_chunk)
        if f is not None:
            k = f['kind']
            if k == 'eof':
                w.eof.add(self)
            elif k == 'short':
                n = min(n, 1 + f.get('arg', 0) % max(1, n))
            elif k == 'flip':
                pass
            else:
                w.raise_fault(f, self.rel)
        if self in w.eof:
            return 0
        data = os.read(self.fd, n)
        if f is not None and f['kind'] == 'flip' and data:
            i = f.get('arg', 0) % len(data)
            data = data[:i] + bytes([data[i] ^ 0x80]) + data[i + 1:]
        b[:len(data)] = data
        return len(data)

    def readall(self):
        # the default implementation loops over readinto()
        res = bytearray()
        while True:
            d = self.read(8192)
            if not d:
                break
            res += d
        return bytes(res)

    def write(self, b):
        self._check()
        if not self._wr:
            raise io.UnsupportedOperation('not writable')
        w = self.w
        data = bytes(b)
        f = w.step('write', self.rel)
        if f is not None:
            k = f['kind']
            cut = f.get('arg', 0) % (len(data) + 1)
            if k == 'short':
                data = data[:max(1, cut)]
            else:
                if cut and k not in ('edit',):
                    self._put(data[:cut])       # torn write: part of it got there
                w.raise_fault(f, self.rel)
        self._put(data)
        return len(data)

    def _put(self, data):
        if self.w.dead:
            raise SimCrash('dead')
        w = self.w
        w.touch_dirty(self.rel)
        view = memoryview(data)
        while view:
            n = os.write(self.fd, view)
            view = view[n:]
        os.utime(self.fd, ns=(w.mtime_ns(), w.mtime_ns()))

    def seek(self, pos, whence=0):
        self._check()
        return os.lseek(self.fd, pos, whence)

    def tell(self):
        self._check()
        return os.lseek(self.fd, 0, 1)

    def truncate(self, size=None):
        self._check()
        if size is None:
            size = self.tell()
        f = self.w.step('write', self.rel)
        if f is not None and f['kind'] != 'short':
            self.w.raise_fault(f, self.rel)
        self.w.touch_dirty(self.rel)
        os.ftruncate(self.fd, size)
        os.utime(self.fd, ns=(self.w.mtime_ns(), self.w.mtime_ns()))
        return size

    def close(self):
        if self._closed_fd:
            return
        w = self.w
        try:
            super().close()
        finally:
            self._closed_fd = True
            w.handles.discard(self)
            w.eof.discard(self)
            f = None
            try:
                if self._wr and ACTIVE is w and not w.dead:
                    f = w.step('close_w', self.rel)
                    if f is not None:
                        if f['kind'] in ('EIO', 'ENOSPC') and f.get('lose'):
                            # delayed write error: the tail never made it
                            size = os.fstat(self.fd).st_size
                            os.ftruncate(self.fd, size - f.get('arg', 1) % (size + 1))
                        w.raise_fault(f, self.rel)
            finally:
                try:
                    os.close(self.fd)
                except OSError:
                    pass

    def __del__(self):
        if not self._closed_fd:
            self._closed_fd = True
            try:
                os.close(self.fd)
            except OSError:
                pass


class World:
    """One simulated run."""

    def __init__(self, root, seed=0, bufsize=512, io_chunk=0, text_chunk=512, mtime_gran=1, start_time=1.6e9,
                 listing=None, tty=(80, 24), locale_encoding='utf-8', faults=(), step_budget=400000, answers=None):
        self.root = os.path.realpath(root)
        self.bufsize, self.io_chunk, self.text_chunk = max(16, bufsize), io_chunk, max(16, text_chunk)
        self.mtime_gran = max(1, mtime_gran)
        self.now = start_time
        self.mono = 1000.0
        self.listing = listing            # function(list) -> list, decides directory order
        self.tty = tty
        self.locale_encoding = locale_encoding
        self.faults = [dict(f) for f in faults]
        self.log = []
        self.digest = hashlib.sha256()
        self.nlog = 0
        self.steps = 0
        self.step_budget = step_budget
        self.counts = Counter()           # operations seen
        self.fired = Counter()            # faults that really happened
        self.fired_list = []
        self.handles = set()
        self.eof = set()
        self.dead = False
        self.dirty = {}                   # rel -> (old content or None, durable length)
        self.journal = []                 # un-synced metadata operations
        self.actors = {}                  # name -> callable, run at I/O points by 'edit' faults
        self.sched = None
        self.net = None                   # callable(url, data) -> response or raises
        self.answers = answers            # callable(prompt) -> answer or raises
        self.term = None
        self.pid = None
        self._null_term = None
        self.probes = Counter()
        self.sim_elapsed = 0.0
        self.in_actor = False
        self.faults_on = True
        self.verbose_log = False
        self.time_calls = 0
        self.clock_jumps = []             # [[n, delta]]: the wall clock jumps when it is read for the nth time

    def null_term(self):
        if self._null_term is None:
            self._null_term = Terminal(self)
        return self._null_term

    # -- log ---------------------------------------------------------------------------------
    def event(self, *parts):
        line = ' '.join(str(p) for p in parts).replace(self.root, '<ROOT>')
        self.digest.update(line.encode('utf-8', 'backslashreplace') + b'\n')
        self.nlog += 1
        if len(self.log) < 4000:
            self.log.append(line)

    # -- time --------------------------------------------------------------------------------
    def advance(self, dt):
        self.now += dt
        self.mono += max(0.0, dt)
        self.sim_elapsed += abs(dt)

    def mtime_ns(self):
        ns = int(self.now * 1e9)
        return ns - ns % self.mtime_gran

    # -- paths -------------------------------------------------------------------------------
    def rel(self, path):
        """Path relative to the scratch root, or None when it is outside."""
        try:
            p = os.path.abspath(_text(path))
        except (TypeError, ValueError):
            return None
        if p == self.root:
            return '.'
        if p.startswith(self.root + os.sep):
            return p[len(self.root) + 1:]
        return None

    # -- faults ------------------------------------------------------------------------------
    def step(self, op, rel):
        """One simulated system call: yield point, fault decision."""
        if self.in_actor:
            return None
        if self.dead:
            raise SimCrash('the machine is off')
        if self.sched is not None:
            self.sched.point('io')
            if self.dead:
                raise SimCrash('the machine is off')
        self.steps += 1
        if self.steps > self.step_budget:
            raise Budget('more than {} simulated system calls'.format(self.step_budget))
        self.counts[op] += 1
        if self.nlog < 20000:
            self.event('io', op, rel)
        if not self.faults_on:
            return None
        for f in self.faults:
            if f.get('done'):
                continue
            ops = f['op']
            if ops != '*' and op != ops and op not in ops.split('|'):
                continue
            m = f.get('path')
            if m is not None and not (rel == m or (m.startswith('*') and rel.endswith(m[1:])) or (m.endswith('*') and rel.startswith(m[:-1]))):
                continue
            seen = f.get('seen', 0)
            f['seen'] = seen + 1
            if seen < f.get('n', 0):
                continue
            if not f.get('sticky'):
                f['done'] = True
            kind = f['kind']
            self.fired[op + ':' + kind] += 1
            self.fired_list.append({'op': op, 'rel': rel, 'kind': kind, 'n': f.get('n', 0)})
            self.event('FAULT', op, rel, kind)
            if kind == 'edit':
                self.run_actor(f['actor'])
                continue
            return f
        return None

    def run_actor(self, name):
        fn = self.actors.get(name)
        if fn is None:
            return
        self.in_actor = True
        try:
            fn()
        finally:
            self.in_actor = False

    def raise_fault(self, f, rel):
        k = f['kind']
        if k == 'kbd':
            raise KeyboardInterrupt()
        if k == 'crash':
            self.dead = True
            raise SimCrash('power loss at {}'.format(rel))
        code = getattr(errno, k, None)
        if code is None:
            raise HarnessError('unknown fault kind {}'.format(k))
        raise OSError(code, os.strerror(code), rel)

    def simple_fault(self, f, rel):
        if f is not None and f['kind'] not in ('short', 'eof', 'flip'):
            self.raise_fault(f, rel)

    # -- durability --------------------------------------------------------------------------
    def touch_dirty(self, rel):
        if rel is None or rel in self.dirty:
            return
        p = os.path.join(self.root, rel)
        try:
            with REAL['open'](p, 'rb') as fh:
                old = fh.read()
        except OSError:
            old = None
        self.dirty[rel] = (old, 0 if old is None else len(old))

    def note_create(self, rel, existed_content):
        if rel not in self.dirty:
            self.dirty[rel] = (existed_content, 0)

    def mark_synced(self, rel):
        self.dirty.pop(rel, None)

    def settle(self):
        """The kernel wrote everything back: all files durable."""
        self.dirty.clear()

    def power_cycle(self, mode='prefix', keep=0.0):
        """Apply what a power loss does to data that was never synced, then come back up."""
        self.in_actor = True
        try:
            self._power_cycle(mode, keep)
        finally:
            self.in_actor = False

    def _power_cycle(self, mode, keep):
        for h in list(self.handles):
            try:
                os.close(h.fd)
            except OSError:
                pass
            h._closed_fd = True
        self.handles.clear()
        self.eof.clear()
        for rel in sorted(self.dirty):
            old, dur = self.dirty[rel]
            p = os.path.join(self.root, rel)
            try:
                size = REAL['stat'](p).st_size
            except OSError:
                continue
            if mode == 'full' or os.path.isdir(p):
                continue
            if mode == 'old' and old is not None:
                with REAL['open'](p, 'wb') as fh:
                    fh.write(old)
            elif mode == 'gone' and old is None:
                REAL['remove'](p)
                continue
            else:
                newlen = int(size * keep)
                os.truncate(p, newlen)
            os.utime(p, ns=(self.mtime_ns(), self.mtime_ns()))
        self.dirty.clear()
        self.dead = False

    def __enter__(self):
        global ACTIVE
        if ACTIVE is not None:
            raise HarnessError('two worlds at once')
        ACTIVE = self
        datetime.datetime = SimDatetime
        return self

    def __exit__(self, *a):
        global ACTIVE
        ACTIVE = None
        datetime.datetime = REAL['datetime']
        for h in list(self.handles):
            try:
                os.close(h.fd)
            except OSError:
                pass
            h._closed_fd = True
        self.handles.clear()
        return False

    def paused(self):
        return _Paused()


class SimDatetime(datetime.datetime):
    @classmethod
    def now(cls, tz=None):
        w = ACTIVE
        if w is None:
            return REAL['datetime'].now(tz)
        return REAL['datetime'].fromtimestamp(w.now, tz)

    @classmethod
    def today(cls):
        return cls.now()


class _Paused:
    """Run harness code on the real system inside a simulated run."""

    def __enter__(self):
        global ACTIVE
        self.saved, ACTIVE = ACTIVE, None

    def __exit__(self, *a):
        global ACTIVE
        ACTIVE = self.saved
        return False


# ---------------------------------------------------------------------------- files
_MODES = {'r': os.O_RDONLY, 'w': os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 'x': os.O_WRONLY | os.O_CREAT | os.O_EXCL,
          'a': os.O_WRONLY | os.O_CREAT | os.O_APPEND}


def _real_isdir(p):
    try:
        return statmod.S_ISDIR(REAL['stat'](p).st_mode)
    except (OSError, ValueError):
        return False


def keep_out(path):
    """The code under test changes nothing outside of the scratch directories, wherever a value it read points to."""
    try:
        p = os.path.abspath(_text(path))
    except (TypeError, ValueError):
        return
    if not p.startswith(('/dev/', '/tmp/')):
        raise PermissionError(errno.EACCES, os.strerror(errno.EACCES), path)


def sim_open(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    w = ACTIVE
    if w is None or w.in_actor or not isinstance(mode, str):
        return REAL['open'](file, mode, buffering, encoding, errors, newline, closefd, opener)
    if isinstance(file, int):
        try:
            target = os.readlink('/proc/self/fd/{}'.format(file))
        except OSError:
            target = None
        rel = w.rel(target) if target else None
        if rel is None or not closefd:
            return REAL['open'](file, mode, buffering, encoding, errors, newline, closefd, opener)
        fd = file
    else:
        rel = w.rel(file)
        if rel is None:
            if set(mode) & set('wax+'):
                keep_out(file)
            return REAL['open'](file, mode, buffering, encoding, errors, newline, closefd, opener)
        fd = None
    base = [c for c in mode if c in 'rwxa']
    if len(base) != 1 or set(mode) - set('rwxabt+') or len(set(mode)) != len(mode) or ('b' in mode and 't' in mode):
        return REAL['open'](file, mode, buffering, encoding, errors, newline, closefd, opener)    # raises ValueError
    base = base[0]
    plus, binary = '+' in mode, 'b' in mode
    if binary and (encoding is not None or errors is not None or newline is not None):
        return REAL['open'](file, mode, buffering, encoding, errors, newline, closefd, opener)
    writing = base != 'r' or plus
    f = w.step('open_w' if writing else 'open_r', rel)
    w.simple_fault(f, rel)
    if fd is None:
        flags = _MODES[base]
        if plus:
            flags = (flags & ~(os.O_WRONLY | os.O_RDONLY)) | os.O_RDWR
        flags |= os.O_CLOEXEC
        p = os.path.join(w.root, rel)
        if _real_isdir(p):
            raise IsADirectoryError(errno.EISDIR, os.strerror(errno.EISDIR), file)
        existed = None
        if writing and base in 'wx':
            try:
                with REAL['open'](p, 'rb') as fh:
                    existed = fh.read()
            except OSError:
                existed = None
        if opener is not None:
            fd = opener(file, flags)
            try:
                rel = w.rel(os.readlink('/proc/self/fd/{}'.format(fd))) or rel
            except OSError:
                pass
        else:
            try:
                fd = REAL['os_open'](p, flags, 0o666)
            except OSError as e:
                raise type(e)(e.errno, e.strerror, file) from None
        if writing and base in 'wx':
            w.note_create(rel, existed)
            os.utime(fd, ns=(w.mtime_ns(), w.mtime_ns()))
        elif writing:
            w.touch_dirty(rel)
        if base == 'a':
            os.lseek(fd, 0, 2)
    raw = SimRaw(w, fd, rel, base == 'r' or plus, writing, file if not isinstance(file, int) else fd)
    if binary and buffering == 0:
        return raw
    size = w.bufsize if buffering in (-1, 1) else max(1, buffering)
    if plus:
        buf = io.BufferedRandom(raw, size)
    elif writing:
        buf = io.BufferedWriter(raw, size)
    else:
        buf = io.BufferedReader(raw, size)
    if binary:
        return buf
    text = io.TextIOWrapper(buf, encoding or w.locale_encoding, errors, newline, line_buffering=(buffering == 1))
    try:
        text._CHUNK_SIZE = w.text_chunk
    except Exception:
        pass
    text.mode = mode
    return text


def _os_hook(name, op):
    real = REAL[name]

    def hook(path='.', *a, **k):
        w = ACTIVE
        if w is None or w.in_actor or isinstance(path, int):
            return real(path, *a, **k)
        rel = w.rel(path)
        if rel is None:
            if op == 'remove':
                keep_out(path)
            return real(path, *a, **k)
        f = w.step(op, rel)
        w.simple_fault(f, rel)
        res = real(path, *a, **k)
        if op == 'remove':
            w.dirty.pop(rel, None)
        return res
    hook.__name__ = name
    return hook


def sim_listdir(path='.'):
    w = ACTIVE
    if w is None or w.in_actor or isinstance(path, int):
        return REAL['listdir'](path)
    rel = w.rel(path if path is not None else '.')
    if rel is None:
        return REAL['listdir'](path)
    w.simple_fault(w.step('listdir', rel), rel)
    names = sorted(REAL['listdir'](path))
    if w.listing is not None:
        names = w.listing(names)
    return names


class _ScandirIter:
    def __init__(self, entries):
        self._it = iter(entries)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self._it)

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def sim_scandir(path='.'):
    w = ACTIVE
    if w is None or w.in_actor or isinstance(path, int):
        return REAL['scandir'](path)
    rel = w.rel(path if path is not None else '.')
    if rel is None:
        return REAL['scandir'](path)
    w.simple_fault(w.step('listdir', rel), rel)
    with REAL['scandir'](path) as it:
        entries = {e.name: e for e in it}
    names = sorted(entries)
    if w.listing is not None:
        names = w.listing(names)
    return _ScandirIter([entries[n] for n in names])


def _move_hook(name):
    real = REAL[name]

    def hook(src, dst, **k):
        w = ACTIVE
        if w is None or w.in_actor:
            return real(src, dst, **k)
        r1, r2 = w.rel(src), w.rel(dst)
        if r1 is None and r2 is None:
            keep_out(src)
            keep_out(dst)
            return real(src, dst, **k)
        w.simple_fault(w.step('rename', r2), r2)
        res = real(src, dst, **k)
        if r1 in w.dirty:
            w.dirty[r2] = (None, 0)
            del w.dirty[r1]
        else:
            w.dirty.pop(r2, None)
        return res
    hook.__name__ = name
    return hook


def sim_stat(path, *a, **k):
    w = ACTIVE
    if w is None or w.in_actor or isinstance(path, int):
        return REAL['stat'](path, *a, **k)
    rel = w.rel(path)
    if rel is None:
        return REAL['stat'](path, *a, **k)
    w.simple_fault(w.step('stat', rel), rel)
    return REAL['stat'](path, *a, **k)


def sim_fsync(fd):
    w = ACTIVE
    if w is None:
        return REAL['fsync'](fd)
    if hasattr(fd, 'fileno'):
        fd = fd.fileno()
    try:
        rel = w.rel(os.readlink('/proc/self/fd/{}'.format(fd)))
    except OSError:
        rel = None
    if rel is not None:
        w.simple_fault(w.step('fsync', rel), rel)
        w.mark_synced(rel)


# ---------------------------------------------------------------------------- time
def sim_time():
    w = ACTIVE
    if w is None:
        return REAL['time']()
    if w.clock_jumps:
        w.time_calls += 1
        for n, delta in w.clock_jumps:
            if n == w.time_calls:
                w.now = max(1.0, w.now + delta)
                w.fired['clock:jump'] += 1
                w.fired_list.append({'op': 'clock', 'kind': 'jump', 'rel': '', 'n': n})
                w.event('FAULT clock jump', delta)
    return w.now


def sim_monotonic():
    w = ACTIVE
    return REAL['monotonic']() if w is None else w.mono


def sim_perf_counter():
    w = ACTIVE
    return REAL['perf_counter']() if w is None else w.mono


def sim_sleep(dt):
    w = ACTIVE
    if w is None:
        return REAL['sleep'](dt)
    if w.sched is not None:
        w.sched.sleep(dt)
    else:
        w.advance(dt)


def sim_getpid():
    w = ACTIVE
    if w is None:
        return REAL['getpid']()
    if w.pid is not None:
        return w.pid
    # every simulated caller is a process of its own
    return 4000 + (w.sched.current.order if w.sched is not None else 0)


# ---------------------------------------------------------------------------- network, terminal, input
class StdProxy(io.TextIOBase):
    """sys.stdout / sys.stderr: the simulated terminal while a World has one, else the real thing."""

    def __init__(self, which):
        self._which = which

    def _t(self):
        w = ACTIVE
        if w is not None:
            return w.term if w.term is not None else w.null_term()
        return REAL[self._which]

    def write(self, s):
        return self._t().write(s)

    def flush(self):
        return self._t().flush()

    def fileno(self):
        return self._t().fileno()

    def isatty(self):
        return self._t().isatty()

    def writable(self):
        return True

    @property
    def encoding(self):
        return self._t().encoding

    @property
    def errors(self):
        return getattr(self._t(), 'errors', 'strict')

    @property
    def buffer(self):
        return self._t().buffer


def sim_urlopen(url, *a, **k):
    w = ACTIVE
    if w is None or w.net is None:
        raise urllib.error.URLError('the simulator has no network here')
    full = url if isinstance(url, str) else url.full_url
    w.simple_fault(w.step('connect', full), full)
    return w.net(full)


def sim_urlretrieve(url, filename=None, reporthook=None, data=None):
    resp = sim_urlopen(url)
    body = resp.read()
    with sim_open(filename, 'wb') as fh:
        fh.write(body)
    return filename, {}


def sim_terminal_size(*a, **k):
    w = ACTIVE
    if w is None:
        return REAL['get_terminal_size'](*a, **k)
    tty = w.tty() if callable(w.tty) else w.tty
    if tty is None:
        raise OSError(errno.ENOTTY, 'Inappropriate ioctl for device')
    return os.terminal_size(tty)


def sim_shutil_terminal_size(fallback=(80, 24)):
    w = ACTIVE
    if w is None:
        return REAL['shutil_get_terminal_size'](fallback)
    tty = w.tty() if callable(w.tty) else w.tty
    return os.terminal_size(tty if tty is not None else fallback)


def sim_input(prompt=''):
    w = ACTIVE
    if w is None or w.answers is None:
        return REAL['input'](prompt)
    if sys.stdout is not None:
        sys.stdout.write(str(prompt))
    return w.answers(prompt)


ADDR = re.compile('0x[0-9a-f]{6,}')


class Terminal(io.TextIOBase):
    """A simulated terminal: what was shown, and an optional point at which it breaks."""

    def __init__(self, world, fail_at=None, kind='EPIPE', encoding='utf-8'):
        self.w, self.chunks, self.fail_at, self.kind = world, [], fail_at, kind
        self.nwrites = 0
        self.enc = encoding

    @property
    def encoding(self):
        return self.enc

    def writable(self):
        return True

    def isatty(self):
        return True

    def write(self, s):
        if not isinstance(s, str):
            raise TypeError('write() argument must be str')
        w = self.w
        if w.dead:
            raise SimCrash('off')
        if w.sched is not None:
            w.sched.point('tty')
        self.nwrites += 1
        w.event('tty', w.sched.current_name() if w.sched else 'main', ADDR.sub('0x', repr(s)[:160]))
        if self.fail_at is not None and self.nwrites > self.fail_at:
            w.fired['tty:' + self.kind] += 1
            raise OSError(getattr(errno, self.kind), os.strerror(getattr(errno, self.kind)))
        s.encode(self.enc)
        self.chunks.append((w.sched.current_name() if w.sched else 'main', s))
        return len(s)

    def flush(self):
        pass

    def fileno(self):
        return 1

    def text(self):
        return ''.join(c for _, c in self.chunks)


# ---------------------------------------------------------------------------- threads
def sim_thread_start(self):
    w = ACTIVE
    if w is None or w.sched is None:
        return REAL['Thread_start'](self)
    return w.sched.start_thread(self)


def sim_thread_join(self, timeout=None):
    w = ACTIVE
    if w is None or w.sched is None or not w.sched.owns(self):
        return REAL['Thread_join'](self, timeout)
    return w.sched.join_thread(self, timeout)


def sim_thread_is_alive(self):
    w = ACTIVE
    if w is None or w.sched is None or not w.sched.owns(self):
        return REAL['Thread_is_alive'](self)
    return w.sched.thread_alive(self)


def _make_lock():
    w = ACTIVE
    if w is None or w.sched is None:
        return REAL['Lock']()
    from .sched import SimLock
    return SimLock(w.sched)


def _make_rlock():
    w = ACTIVE
    if w is None or w.sched is None:
        return REAL['RLock']()
    from .sched import SimLock
    return SimLock(w.sched, reentrant=True)


def install():
    builtins.open = sim_open
    io.open = sim_open
    os.listdir = sim_listdir
    os.scandir = sim_scandir
    os.remove = _os_hook('remove', 'remove')
    os.unlink = _os_hook('unlink', 'remove')
    os.rename = _move_hook('rename')
    os.replace = _move_hook('replace')
    os.stat = sim_stat
    os.fsync = sim_fsync
    os.get_terminal_size = sim_terminal_size
    os.getpid = sim_getpid
    sys.stdout, sys.stderr = StdProxy('stdout'), StdProxy('stderr')
    shutil.get_terminal_size = sim_shutil_terminal_size
    time.time, time.monotonic, time.perf_counter, time.sleep = sim_time, sim_monotonic, sim_perf_counter, sim_sleep
    urllib.request.urlopen = sim_urlopen
    urllib.request.urlretrieve = sim_urlretrieve
    builtins.input = sim_input
    threading.Thread.start = sim_thread_start
    threading.Thread.join = sim_thread_join
    threading.Thread.is_alive = sim_thread_is_alive
    threading.Lock = _make_lock
    threading.RLock = _make_rlock
    threading._allocate_lock = _make_lock
    # pathlib and dbm.dumb reach open through io / _io attribute look-ups, patched above


install()
