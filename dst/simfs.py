"""The file-system seam.

Files the simulation owns live in a private scratch directory; every operation
on a path below it goes through the interposers here, which count operations,
inject faults and model what survives a process crash or a power loss.  Paths
outside the active scratch directory are passed straight through.
"""
import builtins
import errno
import io
import os
import random
import shutil
import sys
import tempfile
import _io

from . import sim

R = {}          # real functions
_ACTIVE = []    # stack of active FS objects


def _fs_for(path):
    if not _ACTIVE:
        return None
    fs = _ACTIVE[-1]
    if isinstance(path, int):
        return fs if path in fs.fds else None
    try:
        p = os.fspath(path)
    except TypeError:
        return None
    if isinstance(p, bytes):
        p = os.fsdecode(p)
    p = os.path.abspath(p)
    if p == fs.root or p.startswith(fs.root + os.sep):
        return fs
    return None


def _err(no, path=None):
    return OSError(no, os.strerror(no), path)


class Inode(object):
    """Content history of one file since it was last known durable."""
    __slots__ = ('durable', 'data', 'versions')

    def __init__(self, data=b'', durable=None):
        self.data = data
        self.durable = durable          # None: never made durable
        self.versions = []

    def changed(self, data):
        self.data = data
        self.versions.append(data)

    def sync(self):
        self.durable = self.data
        self.versions = []


class FS(object):
    """One simulated disk with one simulated process using it."""

    def __init__(self, seed=0):
        base = os.environ.get('DST_SCRATCH') or tempfile.gettempdir()
        self.root = os.path.realpath(tempfile.mkdtemp(prefix='dstfs-', dir=base))
        self.r = random.Random('fs:%s' % (seed,))
        self.gen = 0
        self.names = {}       # path -> Inode (volatile view)
        self.jour = []        # namespace snapshots not yet durable
        self.dnames = {}      # durable namespace
        self.fds = {}         # fd -> [path, Inode, gen]
        self.n = 0            # operations so far in this phase
        self.log = []
        self.faults = {}      # op index -> kind
        self.sticky = None
        self.fired = []
        self.dead = False
        self.kinds = None     # restrict op kinds eligible
        self.yielding = True
        self.watch = None     # called before every operation

    # -- lifecycle ------------------------------------------------------
    def __enter__(self):
        _ACTIVE.append(self)
        return self

    def __exit__(self, *a):
        _ACTIVE.remove(self)
        self.gen += 1
        for fd in list(self.fds):
            try:
                R['close'](fd)
            except OSError:
                pass
        self.fds.clear()
        shutil.rmtree(self.root, ignore_errors=True)

    def path(self, *a):
        return os.path.join(self.root, *a)

    def put(self, name, data):
        """Create a file that is already durable."""
        p = self.path(name)
        d = os.path.dirname(p)
        if not os.path.isdir(d):
            R['makedirs'](d)
        with R['open'](p, 'wb') as f:
            f.write(data)
        self.names[p] = Inode(data, data)
        self.dnames = dict(self.names)
        self.jour = []

    def get(self, name):
        p = self.path(name)
        try:
            with R['open'](p, 'rb') as f:
                return f.read()
        except OSError:
            return None

    def listing(self):
        out = []
        for d, _, fs in os.walk(self.root):
            for f in fs:
                out.append(os.path.relpath(os.path.join(d, f), self.root))
        return sorted(out)

    def arm(self, faults):
        self.n = 0
        self.log = []
        self.faults = dict(faults)
        self.sticky = None

    def clear(self):
        self.faults = {}
        self.sticky = None

    # -- fault decision -------------------------------------------------
    def op(self, kind, path, data=None):
        """Account one operation.  Returns None, or ('short', k) for writes."""
        if self.dead:
            raise sim.SimCrash()
        if self.yielding:
            sim._y(0)
        if self.watch is not None:
            self.watch()
        i = self.n
        self.n += 1
        name = os.path.relpath(path, self.root) if isinstance(path, str) else str(path)
        self.log.append((kind, name, len(data) if data is not None else 0))
        f = self.faults.get(i)
        if f is None and self.sticky is not None and kind in ('write', 'fsync', 'create'):
            raise _err(self.sticky, path)
        if f is None:
            return None
        if f == 'crash':
            self.fired.append((f, i, kind))
            self.die()
        if f == 'power':
            self.fired.append((f, i, kind))
            self.die()
        if f == 'torn':
            if kind == 'write' and data:
                self.fired.append((f, i, kind))
                return ('torn', self.r.randrange(len(data)))
            self.fired.append(('crash', i, kind))
            self.die()
        if f == 'short':
            if kind in ('write', 'read') and data is not None and len(data) > 1:
                self.fired.append((f, i, kind))
                return ('short', self.r.randrange(1, len(data)))
            return None
        if f == 'eof':
            if kind == 'read':
                self.fired.append((f, i, kind))
                return ('eof', 0)
            return None
        if f == 'enospc':
            if kind in ('write', 'create', 'fsync', 'replace', 'mkdir'):
                self.fired.append((f, i, kind))
                self.sticky = errno.ENOSPC
                if kind == 'write' and data and self.r.random() < .5:
                    return ('partial', self.r.randrange(len(data)))
                raise _err(errno.ENOSPC, path)
            self.faults[i + 1] = 'enospc'
            return None
        if f == 'eio':
            self.fired.append((f, i, kind))
            raise _err(errno.EIO, path)
        if f == 'eacces':
            if kind in ('create', 'openr', 'openw', 'replace', 'unlink', 'mkdir'):
                self.fired.append((f, i, kind))
                raise _err(errno.EACCES, path)
            self.faults[i + 1] = 'eacces'
            return None
        if f == 'emfile':
            if kind in ('create', 'openr', 'openw'):
                self.fired.append((f, i, kind))
                raise _err(errno.EMFILE, path)
            self.faults[i + 1] = 'emfile'
            return None
        return None

    def die(self):
        self.dead = True
        raise sim.SimCrash()

    # -- model updates ---------------------------------------------------
    def snapshot(self, path):
        try:
            with R['open'](path, 'rb') as f:
                return f.read()
        except OSError:
            return None

    def settle(self):
        """Enough time passes for the system to write everything back."""
        for ino in self.names.values():
            ino.sync()
        self.dnames = dict(self.names)
        self.jour = []

    def ns_changed(self):
        self.jour.append(dict(self.names))

    def inode(self, path):
        ino = self.names.get(path)
        if ino is None:
            d = self.snapshot(path)
            ino = Inode(d or b'', d)
            self.names[path] = ino
        return ino

    # -- crash / restart ---------------------------------------------------
    def restart(self, power=False):
        """Restart after a crash: only what survived remains."""
        self.gen += 1
        for fd in list(self.fds):
            try:
                R['close'](fd)
            except OSError:
                pass
        self.fds.clear()
        self.dead = False
        self.faults = {}
        self.sticky = None
        if power:
            hist = [self.dnames] + self.jour
            ns = hist[self.r.randrange(len(hist))]
            content = {}
            for p, ino in ns.items():
                opts = ([ino.durable] if ino.durable is not None else [b'']) + ino.versions
                c = opts[self.r.randrange(len(opts))]
                if ino.versions and c and self.r.random() < .25:
                    # size reached the disk, the last part of the data did not
                    k = self.r.randrange(len(c))
                    c = c[:k] + b'\0' * (len(c) - k)
                content[p] = c
            for d, _, fs in os.walk(self.root):
                for f in fs:
                    R['remove'](os.path.join(d, f))
            self.names = {}
            for p, c in content.items():
                if not os.path.isdir(os.path.dirname(p)):
                    R['makedirs'](os.path.dirname(p))
                with R['open'](p, 'wb') as f:
                    f.write(c)
                self.names[p] = Inode(c, c)
        else:
            self.names = {}
            for d, _, fs in os.walk(self.root):
                for f in fs:
                    p = os.path.join(d, f)
                    c = self.snapshot(p)
                    self.names[p] = Inode(c, c)
        self.dnames = dict(self.names)
        self.jour = []


class SimRaw(io.RawIOBase):
    """Raw file bound to a real descriptor; every call is an FS operation."""

    def __init__(self, fs, fd, path, mode, closefd=True):
        self.fs = fs
        self.fd = fd
        self.gen = fs.gen
        self.pathname = path
        self.name = path
        self.mode_ = mode
        self.closefd = closefd
        self._r = 'r' in mode or '+' in mode
        self._w = any(c in mode for c in 'wax+')
        self.append = 'a' in mode
        super().__init__()

    def _stale(self):
        return self.gen != self.fs.gen or self.fd not in self.fs.fds

    @property
    def mode(self):
        return self.mode_.replace('t', '') + ('' if 'b' in self.mode_ else 'b')

    def readable(self):
        return self._r

    def writable(self):
        return self._w

    def seekable(self):
        return True

    def fileno(self):
        if self.closed:
            raise ValueError('I/O operation on closed file')
        return self.fd

    def isatty(self):
        return False

    def readinto(self, b):
        if self._stale():
            raise ValueError('I/O operation on closed file')
        want = len(b)
        act = self.fs.op('read', self.pathname, memoryview(b))
        if act is not None and act[0] == 'eof':
            return 0
        if act is not None:
            want = max(1, min(want, act[1]))
        d = R['read'](self.fd, want)
        b[:len(d)] = d
        return len(d)

    def write(self, b):
        data = bytes(b)
        if self._stale():
            return len(data)
        return _do_write(self.fs, self.fd, self.pathname, data)

    def seek(self, off, whence=0):
        if self._stale():
            raise ValueError('I/O operation on closed file')
        return R['lseek'](self.fd, off, whence)

    def tell(self):
        return R['lseek'](self.fd, 0, 1)

    def truncate(self, size=None):
        if size is None:
            size = self.tell()
        self.fs.op('truncate', self.pathname)
        R['ftruncate'](self.fd, size)
        ino = self.fs.fds[self.fd][1]
        d = ino.data[:size]
        ino.changed(d + b'\0' * (size - len(d)))
        return size

    def close(self):
        if self.closed:
            return
        try:
            super().close()
        finally:
            if not self._stale() and self.closefd:
                fs = self.fs
                del fs.fds[self.fd]
                R['close'](self.fd)
                if not fs.dead:
                    fs.op('close', self.pathname)


def _do_write(fs, fd, path, data):
    act = fs.op('write', path, data)
    ent = fs.fds[fd]
    n = len(data)
    if act is not None:
        n = act[1]
    if n:
        n = R['write'](fd, data[:n])
        ino = ent[1]
        pos = R['lseek'](fd, 0, 1)
        d = ino.data
        st = pos - n
        if len(d) < st:
            d = d + b'\0' * (st - len(d))
        ino.changed(d[:st] + data[:n] + d[st + n:])
    if act is not None:
        if act[0] == 'torn':
            fs.die()
        if act[0] == 'partial' and n == 0:
            raise _err(errno.ENOSPC, path)
    return n


# --------------------------------------------------------------------------
def _flags(mode):
    f = 0
    if 'x' in mode:
        f = os.O_CREAT | os.O_EXCL
    elif 'w' in mode:
        f = os.O_CREAT | os.O_TRUNC
    elif 'a' in mode:
        f = os.O_CREAT | os.O_APPEND
    if '+' in mode:
        f |= os.O_RDWR
    elif 'r' in mode:
        f |= os.O_RDONLY
    else:
        f |= os.O_WRONLY
    return f | os.O_CLOEXEC


def _fs_open(fs, path, flags, perm=0o666):
    exists = os.path.exists(path)
    wr = flags & (os.O_WRONLY | os.O_RDWR)
    fs.op('create' if (flags & os.O_CREAT and not exists) else ('openw' if wr else 'openr'), path)
    old = fs.inode(path) if exists and os.path.isfile(path) else None
    fd = R['osopen'](path, flags, perm)
    if not exists:
        ino = Inode(b'', None)
        fs.names[path] = ino
        fs.ns_changed()
    else:
        ino = old if old is not None else Inode(b'', b'')
        if flags & os.O_TRUNC and wr:
            ino.changed(b'')
    fs.fds[fd] = [path, ino, fs.gen]
    return fd


def _wrap(raw, mode, buffering, encoding, errs, newline):
    binary = 'b' in mode
    if buffering == 0:
        if not binary:
            raise ValueError("can't have unbuffered text I/O")
        return raw
    size = buffering if buffering > 1 else io.DEFAULT_BUFFER_SIZE
    if '+' in mode:
        buf = io.BufferedRandom(raw, size)
    elif 'r' in mode:
        buf = io.BufferedReader(raw, size)
    else:
        buf = io.BufferedWriter(raw, size)
    if binary:
        return buf
    t = io.TextIOWrapper(buf, encoding or 'utf-8', errs, newline, buffering == 1)
    t.mode = mode
    return t


def sim_open(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None,
             closefd=True, opener=None):
    fs = _fs_for(file)
    if fs is None:
        return R['open'](file, mode, buffering, encoding, errors, newline, closefd, opener)
    if isinstance(file, int):
        fd, path = file, fs.fds[file][0]
    else:
        path = os.path.abspath(os.fsdecode(os.fspath(file)))
        if opener is not None:
            fd = opener(path, _flags(mode))
            if fd not in fs.fds:
                ino = fs.inode(path)
                fs.fds[fd] = [path, ino, fs.gen]
        else:
            if os.path.isdir(path):
                raise _err(errno.EISDIR, path)
            fd = _fs_open(fs, path, _flags(mode))
    return _wrap(SimRaw(fs, fd, path, mode, closefd), mode, buffering, encoding, errors, newline)


def sim_osopen(path, flags, mode=0o777, *, dir_fd=None):
    fs = _fs_for(path)
    if fs is None:
        return R['osopen'](path, flags, mode, dir_fd=dir_fd)
    p = os.path.abspath(os.fsdecode(os.fspath(path)))
    if os.path.isdir(p):
        fd = R['osopen'](p, flags, mode)
        fs.fds[fd] = [p, None, fs.gen]
        return fd
    return _fs_open(fs, p, flags, mode)


def sim_oswrite(fd, data):
    fs = _fs_for(fd)
    if fs is None:
        return R['write'](fd, data)
    return _do_write(fs, fd, fs.fds[fd][0], bytes(data))


def sim_osread(fd, n):
    fs = _fs_for(fd)
    if fs is None:
        return R['read'](fd, n)
    fs.op('read', fs.fds[fd][0])
    return R['read'](fd, n)


def sim_osclose(fd):
    fs = _fs_for(fd)
    if fs is None:
        return R['close'](fd)
    path = fs.fds.pop(fd)[0]
    R['close'](fd)
    fs.op('close', path)


def sim_fsync(fd):
    n = fd if isinstance(fd, int) else fd.fileno()
    fs = _fs_for(n)
    if fs is None:
        return R['fsync'](n)
    path, ino, _ = fs.fds[n]
    fs.op('fsync', path)
    if ino is None:                     # a directory: its entries are durable
        fs.dnames = dict(fs.names)
        fs.jour = []
    else:
        ino.sync()


def sim_ftruncate(fd, size):
    fs = _fs_for(fd)
    R['ftruncate'](fd, size)
    if fs is not None:
        path, ino, _ = fs.fds[fd]
        fs.op('truncate', path)
        d = ino.data[:size]
        ino.changed(d + b'\0' * (size - len(d)))


def _two(name):
    def f(src, dst, *a, **k):
        fs = _fs_for(dst) or _fs_for(src)
        if fs is None:
            return R[name](src, dst, *a, **k)
        s = os.path.abspath(os.fsdecode(os.fspath(src)))
        d = os.path.abspath(os.fsdecode(os.fspath(dst)))
        fs.op('replace', d)
        ino = fs.inode(s) if os.path.isfile(s) else None
        R[name](s, d, *a, **k)
        if ino is not None:
            if name != 'link':
                fs.names.pop(s, None)
            fs.names[d] = ino
            fs.ns_changed()
    f.__name__ = name
    return f


def _one(name, kind):
    def f(path, *a, **k):
        fs = _fs_for(path)
        if fs is None:
            return R[name](path, *a, **k)
        p = os.path.abspath(os.fsdecode(os.fspath(path)))
        fs.op(kind, p)
        r = R[name](p, *a, **k)
        if kind == 'unlink':
            fs.names.pop(p, None)
            fs.ns_changed()
        elif kind == 'truncate':
            fs.inode(p).changed(fs.snapshot(p))
        return r
    f.__name__ = name
    return f


_installed = False


def install():
    global _installed
    if _installed:
        return
    _installed = True
    R.update(open=builtins.open, osopen=os.open, write=os.write, read=os.read, close=os.close,
             fsync=os.fsync, ftruncate=os.ftruncate, lseek=os.lseek, replace=os.replace,
             rename=os.rename, remove=os.remove, unlink=os.unlink, makedirs=os.makedirs,
             mkdir=os.mkdir, truncate=os.truncate, link=os.link, fdatasync=os.fdatasync)
    builtins.open = sim_open
    io.open = sim_open
    _io.open = sim_open
    tempfile._io.open = sim_open
    os.open = sim_osopen
    os.write = sim_oswrite
    os.read = sim_osread
    os.close = sim_osclose
    os.fsync = sim_fsync
    os.fdatasync = sim_fsync
    os.ftruncate = sim_ftruncate
    os.replace = _two('replace')
    os.rename = _two('rename')
    os.link = _two('link')
    os.remove = _one('remove', 'unlink')
    os.unlink = _one('unlink', 'unlink')
    os.truncate = _one('truncate', 'truncate')
    os.mkdir = _one('mkdir', 'mkdir')
    import pathlib
    acc = getattr(pathlib, '_NormalAccessor', None)
    if acc is not None:
        for n in ('replace', 'rename', 'unlink', 'mkdir', 'open'):
            if hasattr(acc, n):
                setattr(acc, n, staticmethod(getattr(os, n)))
    # copy helpers must use the interposed calls, not fd-level fast paths
    shutil._USE_CP_SENDFILE = False
    if hasattr(shutil, '_HAS_FCOPYFILE'):
        shutil._HAS_FCOPYFILE = False
