"""The disk seam: files below one scratch directory, under simulator control.

Real files in a scratch directory, but every open, read, write, rename and
listing below it goes through here: raw I/O may be short or interrupted
(harmless, the caller must cope), may fail (ENOSPC, EIO, failing close, failing
open), or the simulated machine may crash at a byte or at an operation. After a
crash the disk is frozen: clean-up code of the dying process cannot change it.
"""
import builtins
import errno
import io
import os
import random

_real = {}


class SimCrash(BaseException):
    """The simulated process died here."""


class Disk:
    """plan: {'seed', 'buffer', 'rates': {...}, 'faults': [{'kind','at',...}], 'listing': seed}"""

    def __init__(self, root, plan):
        self.root = os.path.realpath(root) + os.sep
        self.r = random.Random(plan.get('seed', 0))
        self.buffer = plan.get('buffer', 8192)
        self.rates = plan.get('rates', {})
        self.faults = [dict(f) for f in plan.get('faults', [])]
        self.listing = plan.get('listing')
        self.vanish = plan.get('vanish')
        self.frozen = False
        self.full = False
        self.written = self.read = self.opens = self.events = 0
        self.fired = {}
        self.old = {}  # path -> content before first modification (None: absent)
        self.durable = {}  # path -> content at last fsync
        self.fds = {}
        self.on_io = None
        self.log = []

    # -- helpers
    def inside(self, path):
        try:
            p = os.fspath(path)
        except TypeError:
            return False
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        return os.path.realpath(p).startswith(self.root)

    def note(self, kind):
        self.fired[kind] = self.fired.get(kind, 0) + 1

    def chance(self, kind):
        p = self.rates.get(kind, 0)
        return p and self.r.random() < p

    def alive(self):
        if self.frozen:
            raise SimCrash()

    def crash(self, kind):
        self.frozen = True
        self.note(kind)
        raise SimCrash()

    def event(self, name):
        """A visible file-system operation: a possible crash point."""
        self.alive()
        if self.on_io:
            self.on_io()
        k = self.events
        self.events += 1
        self.log.append(name)
        for f in self.faults:
            if f['kind'] == 'crash_event' and f['at'] == k:
                self.crash('crash_event')

    def remember(self, path):
        path = os.path.realpath(path)
        if path not in self.old:
            try:
                with _real['open'](path, 'rb') as f:
                    self.old[path] = f.read()
            except OSError:
                self.old[path] = None

    def check_open(self, path, mode):
        k = self.opens
        self.opens += 1
        for f in self.faults:
            if f['kind'] == 'open' and f['at'] == k:
                self.note('open_' + f['errno'])
                raise OSError(getattr(errno, f['errno']), os.strerror(getattr(errno, f['errno'])), path)

    # -- bytes
    def write(self, raw, b):
        self.alive()
        if self.on_io:
            self.on_io()
        if self.chance('eintr_write'):
            self.note('eintr_write')
            raise InterruptedError(errno.EINTR, 'interrupted')
        n = len(b)
        for f in self.faults:
            if f['kind'] in ('enospc', 'eio_write', 'crash_write'):
                if (f['kind'] == 'enospc' and self.full) or self.written + n > f['at']:
                    if f.get('done') and f['kind'] != 'enospc':
                        continue
                    room = max(0, f['at'] - self.written)
                    if room:
                        self._put(raw, b[:room])
                        if f['kind'] == 'enospc':
                            return room  # the kernel reports a short write first
                    f['done'] = True
                    if f['kind'] == 'crash_write':
                        self.crash('crash_write')
                    self.note(f['kind'])
                    if f['kind'] == 'enospc':
                        self.full = True
                        raise OSError(errno.ENOSPC, 'No space left on device')
                    raise OSError(errno.EIO, 'Input/output error')
        if n > 1 and self.chance('short_write'):
            self.note('short_write')
            n = self.r.randint(1, n - 1)
        return self._put(raw, b[:n])

    def _put(self, raw, b):
        b = bytes(b)
        done = 0
        while done < len(b):
            done += io.FileIO.write(raw, b[done:])
        self.written += len(b)
        return len(b)

    def readinto(self, raw, b):
        self.alive()
        if self.on_io:
            self.on_io()
        if self.chance('eintr_read'):
            self.note('eintr_read')
            raise InterruptedError(errno.EINTR, 'interrupted')
        view = memoryview(b).cast('B')
        n = len(view)
        for f in self.faults:
            if f['kind'] == 'eio_read' and self.read + n > f['at'] and not f.get('done'):
                room = max(0, f['at'] - self.read)
                if room:
                    got = io.FileIO.readinto(raw, view[:room])
                    self.read += got
                    if got:
                        return got
                    continue
                f['done'] = not f.get('sticky')
                self.note('eio_read')
                raise OSError(errno.EIO, 'Input/output error')
        if n > 1 and self.chance('short_read'):
            self.note('short_read')
            n = min(n, int(2 ** self.r.uniform(0, 12)))
        got = io.FileIO.readinto(raw, view[:n])
        self.read += got or 0
        return got

    def closing(self, raw):
        for f in self.faults:
            if f['kind'] == 'eio_close' and not f.get('done'):
                f['done'] = True
                self.note('eio_close')
                raise OSError(errno.EIO, 'Input/output error')


class RawFile(io.FileIO):
    """FileIO whose transfers are decided by the disk."""

    def __init__(self, disk, file, mode, closefd=True, opener=None):
        self._disk = disk
        super().__init__(file, mode, closefd=closefd, opener=opener)
        self._wrote = False

    def write(self, b):
        self._wrote = True
        return self._disk.write(self, memoryview(b).cast('B'))

    def readinto(self, b):
        return self._disk.readinto(self, b)

    def read(self, size=-1):
        if size is None or size < 0:
            return self.readall()
        buf = bytearray(size)
        n = self.readinto(buf)
        return None if n is None else bytes(buf[:n])

    def readall(self):
        parts = []
        while True:
            buf = bytearray(65536)
            try:
                n = self.readinto(buf)
            except InterruptedError:
                continue
            if not n:
                return b''.join(parts)
            parts.append(bytes(buf[:n]))

    def close(self):
        if self.closed:
            return
        wrote = self._wrote and not self._disk.frozen
        super().close()
        if wrote:
            self._disk.closing(self)


_disk = None


def _open(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    d = _disk
    tracked = d is not None and (
        (isinstance(file, int) and file in d.fds) or (not isinstance(file, int) and d.inside(file))
    )
    if not tracked:
        return _real['open'](file, mode, buffering, encoding, errors, newline, closefd, opener)
    writing = any(c in mode for c in 'wax+')
    if not isinstance(file, int):
        d.event('open')
        d.check_open(file, mode)
        if writing:
            d.remember(file)
    binary = 'b' in mode
    raw = RawFile(d, file, mode.replace('b', '').replace('t', ''), closefd, opener)
    if buffering == 0:
        if not binary:
            raise ValueError("can't have unbuffered text I/O")
        return raw
    line = buffering == 1
    size = buffering if buffering > 1 else d.buffer
    if '+' in mode:
        buf = io.BufferedRandom(raw, size)
    elif writing:
        buf = io.BufferedWriter(raw, size)
    else:
        buf = io.BufferedReader(raw, size)
    if binary:
        return buf
    text = io.TextIOWrapper(buf, encoding, errors, newline, line)
    text.mode = mode
    return text


def _wrap_paths(name, npaths):
    real = getattr(os, name)
    _real[name] = real

    def call(*a, **kw):
        d = _disk
        if d is None or not any(d.inside(p) for p in a[:npaths] if not isinstance(p, int)):
            return real(*a, **kw)
        d.event(name)
        for p in a[:npaths]:
            d.remember(p)
        return real(*a, **kw)

    setattr(os, name, call)


class _Listing:
    def __init__(self, entries, error=None):
        self._it = iter(entries)
        self._error = error

    def __iter__(self):
        return self

    def __next__(self):
        try:
            return next(self._it)
        except StopIteration:
            if self._error is not None:
                raise self._error
            raise

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass


def _permuted(d, entries, name):
    key = name
    entries = sorted(entries, key=key)
    if d.listing is not None:
        random.Random(d.listing).shuffle(entries)
        d.note('listing_permuted')
    return entries


def _listing_fault(d):
    """(error, number of entries delivered before it) or None."""
    for f in d.faults:
        if f['kind'] == 'list' and not f.get('done'):
            f['done'] = True
            d.note('list_' + f['errno'])
            num = getattr(errno, f['errno'])
            return OSError(num, os.strerror(num)), f.get('after', 0)
    return None


def install(disk):
    """Inside a forked child only."""
    global _disk
    if not _real:
        _real['open'] = builtins.open
        builtins.open = io.open = _open
        import _io

        _io.open = _open
        for name, n in (('replace', 2), ('rename', 2), ('remove', 1), ('unlink', 1), ('truncate', 1), ('link', 2)):
            if hasattr(os, name):
                _wrap_paths(name, n)
        real_os_open, real_write, real_fsync = os.open, os.write, os.fsync
        real_scandir, real_listdir = os.scandir, os.listdir

        def os_open(path, flags, *a, **kw):
            d = _disk
            if d is None or not d.inside(path):
                return real_os_open(path, flags, *a, **kw)
            d.event('open')
            d.check_open(path, flags)
            if flags & (os.O_WRONLY | os.O_RDWR):
                d.remember(path)
            fd = real_os_open(path, flags, *a, **kw)
            d.fds[fd] = os.path.realpath(path)
            return fd

        def os_write(fd, b):
            d = _disk
            if d is None or fd not in d.fds:
                return real_write(fd, b)
            raw = RawFile(d, fd, 'w' if False else 'r+', closefd=False)
            return raw.write(b)

        def os_fsync(fd):
            d = _disk
            num = fd if isinstance(fd, int) else fd.fileno()
            try:
                path = os.readlink('/proc/self/fd/%d' % num)
            except OSError:
                path = ''
            if d is not None and path.startswith(d.root):
                d.event('fsync')
                real_fsync(num)
                with _real['open'](path, 'rb') as f:
                    d.durable[path] = f.read()
                return None
            return real_fsync(fd)

        def os_scandir(path='.'):
            d = _disk
            if d is None or isinstance(path, int) or not d.inside(os.path.join(path, 'x')):
                return real_scandir(path)
            d.event('scandir')
            fault = _listing_fault(d)
            if fault and not fault[1]:
                raise fault[0]
            with real_scandir(path) as it:
                entries = _permuted(d, list(it), lambda e: e.name)
            _vanish(d)
            if fault:
                return _Listing(entries[:fault[1]], fault[0])
            return _Listing(entries)

        def os_listdir(path='.'):
            d = _disk
            if d is None or isinstance(path, int) or not d.inside(os.path.join(path, 'x')):
                return real_listdir(path)
            d.event('listdir')
            fault = _listing_fault(d)
            if fault:
                raise fault[0]
            entries = _permuted(d, real_listdir(path), lambda e: e)
            _vanish(d)
            return entries

        def _vanish(d):
            if d.vanish is not None:
                p = os.path.join(d.root, d.vanish)
                if os.path.exists(p):
                    _real['unlink'](p)
                    d.note('file_vanished')

        os.open, os.write, os.fsync = os_open, os_write, os_fsync
        os.scandir, os.listdir = os_scandir, os_listdir
    _disk = disk


def detach():
    """Stop simulating (the oracle looks at the disk through the real calls)."""
    global _disk
    d, _disk = _disk, None
    return d


def power_loss(disk, path, how, r):
    """What the platter holds after a power cut. how: keep|old|empty|prefix|zeros"""
    path = os.path.realpath(path)
    if not os.path.exists(path):
        return 'absent'
    with _real['open'](path, 'rb') as f:
        cur = f.read()
    if path in disk.durable and disk.durable[path] == cur:
        return 'durable'
    if path not in disk.old:
        return 'unmodified'
    if how == 'old':
        data = disk.old[path]
        if data is None:
            _real['unlink'](path)
            return 'old-absent'
    elif how == 'empty':
        data = b''
    elif how == 'prefix':
        data = cur[: r.randint(0, len(cur))]
    elif how == 'zeros':
        k = r.randint(0, len(cur))
        data = cur[:k] + b'\0' * (len(cur) - k)
    else:
        data = cur
    with _real['open'](path, 'wb') as f:
        f.write(data)
    return how
