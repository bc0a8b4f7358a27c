"""File-system, clock, stream and lock seams.

Files live in a real scratch directory, so that every call the code under
test may make has its real meaning; calls made by a simulated thread on a path
below that directory go through the simulator first: they are yield points,
may fail, may be cut short, and what was written and not synced may be lost.
"""
import __builtin__
import codecs
import errno
import io
import os
import random
import shutil
import sys
import tempfile
import threading
import time

import core

R = {}                       # the real functions


class FS(object):
    def __init__(self, sim, root):
        self.sim = sim
        self.root = root
        self.full = False            # disk full: every data write fails
        self.chunk = 4096            # bytes per write system call
        self.synced = {}             # path -> durable content (None: no file)
        self.order = None            # listdir order: None = sorted
        self.renamed = {}            # path -> content before the rename
        sim.fs = self

    def covers(self, path):
        try:
            p = os.path.abspath(str(path))
        except Exception:
            return None
        if p == self.root or p.startswith(self.root + '/'):
            return p
        return None

    # durability ----------------------------------------------------------
    def dirty(self, path):
        """About to change `path`: remember what is durable now."""
        if path not in self.synced:
            self.synced[path] = slurp(path)

    def sync(self, path):
        self.synced.pop(path, None)

    def power_loss(self):
        """Un-synced changes are kept, undone, cut short, or zero-filled."""
        ch = self.sim.ch
        for path in sorted(self.renamed):
            if path in self.synced or slurp(path) is None:
                continue
            if ch.flip(1, 2, 'rename-undone'):
                if self.renamed[path] is None:
                    R['remove'](path)
                else:
                    spit(path, self.renamed[path])
        self.renamed = {}
        for path in sorted(self.synced):
            old = self.synced[path]
            cur = slurp(path)
            if cur is None:
                if old is not None and ch.flip(1, 2, 'undelete'):
                    spit(path, old)
                continue
            k = ch.weighted((3, 2, 3, 2, 1), 'powerloss')
            if k == 0:
                pass
            elif k == 1:
                if old is None:
                    R['remove'](path)
                else:
                    spit(path, old)
            elif k == 2:
                n = ch.pick(len(cur) + 1, 'torn')
                spit(path, cur[:n])
            elif k == 3:
                n = ch.pick(len(cur) + 1, 'zeros')
                spit(path, cur[:n] + '\0' * (len(cur) - n))
            else:
                spit(path, '')
            self.sim.note('powerloss', os.path.basename(path), k)
        self.synced = {}


def slurp(path):
    try:
        f = R['open'](path, 'rb')
    except (IOError, OSError):
        return None
    try:
        return f.read()
    finally:
        f.close()


def spit(path, data):
    f = R['open'](path, 'wb')
    try:
        f.write(data)
    finally:
        f.close()


def _fs(path):
    """(sim, fs, absolute path) when a simulated thread touches the scratch
    directory, else None."""
    s = core.SIM
    if s is None or s.cur is None:
        return None
    fs = getattr(s, 'fs', None)
    if fs is None:
        return None
    p = fs.covers(path)
    if p is None:
        return None
    return s, fs, p


def _err(kind, cls, path):
    no = getattr(errno, kind)
    return cls(no, os.strerror(no) if hasattr(os, 'strerror') else kind, path)


def _act(s, act, cls, path):
    """Carry out a fault action that is not specific to the operation."""
    if act is None:
        return
    kind = act[0]
    if kind == 'error':
        s.fault('io-' + act[1].lower())
        s.note('fault', act[1], os.path.basename(path))
        raise _err(act[1], cls, path)
    if kind == 'raise':
        s.fault(act[1].__name__)
        s.note('fault', act[1].__name__)
        raise act[1]()
    if kind == 'crash':
        s.fault('crash')
        s.kill(s.cur.proc, 'at io')
    if kind == 'powerloss':
        s.fault('powerloss')
        power_loss(s)


def power_loss(s):
    me = s.cur
    for p in s.procs:
        if not p.crashed and (me is None or p is not me.proc):
            s.kill(p, 'power')
    s.fs.power_loss()
    if me is not None:
        s.kill(me.proc, 'power')


class SimFile(object):
    softspace = 0

    def __init__(self, s, fs, path, name, mode, text=None):
        self.s, self.fs, self.path, self.name, self.mode = \
            s, fs, path, name, mode
        self.proc = s.cur.proc
        self.closed = False
        self.dead = False
        self.text = text            # encoding for io.open text mode
        m = mode.replace('U', 'r').replace('t', '')
        self.can_read = 'r' in m or '+' in m
        self.can_write = 'w' in m or 'a' in m or '+' in m
        self.append = 'a' in m
        self.buf = []
        self.nbuf = 0
        self.rbuf = ''
        self.rpos = 0
        base = m.replace('b', '')
        if 'w' in m or ('a' in m and not R['exists'](path)):
            fs.dirty(path)
        if self.can_write:
            fs.dirty(path)
        if 'w' in m:
            self.f = R['open'](path, 'w+b')
        elif 'a' in m:
            self.f = R['open'](path, 'a+b')
        elif '+' in m:
            self.f = R['open'](path, 'r+b')
        else:
            self.f = R['open'](path, 'rb')
        self.base = base
        self.proc.files.append(self)

    # -- life cycle
    def lost(self):
        """The process died: buffered data is gone."""
        self.dead = True
        self.buf = []
        self.nbuf = 0
        try:
            self.f.close()
        except Exception:
            pass

    def _live(self):
        if self.dead or self.proc.crashed:
            raise core.SimCrash()
        if self.closed:
            raise ValueError('I/O operation on closed file')

    def close(self):
        if self.closed:
            return
        if self.dead or self.proc.crashed:
            self.closed = True
            return
        try:
            self.flush()
            if self.s.cur is not None:
                _act(self.s, self.s.io('close', self.path), IOError, self.name)
        finally:
            self.closed = True
            self.f.close()
            if self in self.proc.files:
                self.proc.files.remove(self)

    def __enter__(self):
        self._live()
        return self

    def __exit__(self, *a):
        self.close()

    # -- writing
    def write(self, data):
        self._live()
        if not self.can_write:
            raise IOError('File not open for writing')
        if self.rbuf:
            self._unread()
        if isinstance(data, unicode):
            data = data.encode(self.text or 'utf-8')
        elif not isinstance(data, str):
            data = str(data)
        self.buf.append(data)
        self.nbuf += len(data)
        if self.nbuf >= self.fs.chunk:
            self._flush(False)

    def writelines(self, lines):
        for l in lines:
            self.write(l)

    def flush(self):
        self._live()
        if self.can_write:
            self._flush(True)

    def _flush(self, everything):
        data = ''.join(self.buf)
        self.buf, self.nbuf = [], 0
        pos = 0
        n = self.fs.chunk
        try:
            while pos < len(data) and (everything or len(data) - pos >= n):
                piece = data[pos:pos + n]
                self._syswrite(piece)
                pos += len(piece)
        except core.SimCrash:
            raise
        except BaseException:
            # what the failed call did not take is dropped, as a stdio buffer
            # is after an error
            raise
        if pos < len(data):
            self.buf, self.nbuf = [data[pos:]], len(data) - pos

    def _syswrite(self, piece):
        s = self.s
        act = s.io('write', self.path) if s.cur is not None else None
        self._live()
        self.fs.dirty(self.path)
        if self.fs.full:
            s.fault('io-enospc')
            k = s.ch.pick(len(piece) + 1, 'partial') \
                if s.ch.flip(1, 2, 'anypartial') else 0
            self._put(piece[:k])
            raise _err('ENOSPC', IOError, self.name)
        if act is not None and act[0] in ('error', 'crash', 'powerloss',
                                          'raise'):
            # the call was cut short: any prefix may have been taken
            k = s.ch.pick(len(piece) + 1, 'partial')
            self._put(piece[:k])
            if act[0] == 'powerloss':
                s.fault('torn-write')
            _act(s, act, IOError, self.name)
        self._put(piece)

    def _put(self, piece):
        if piece:
            if self.append:
                self.f.seek(0, 2)
            self.f.write(piece)
            self.f.flush()

    def truncate(self, size=None):
        self.flush()
        self.fs.dirty(self.path)
        self.f.truncate(self.f.tell() if size is None else size)

    # -- reading: as stdio does, a block at a time
    def _fill(self):
        """One read system call into the buffer; False at end of file."""
        if self.s.cur is not None:
            act = self.s.io('read', self.path)
            _act(self.s, act, IOError, self.name)
        self._live()
        data = self.f.read(self.fs.chunk)
        if not data:
            return False
        self.rbuf = self.rbuf[self.rpos:] + data
        self.rpos = 0
        return True

    def _rd(self):
        self._live()
        if not self.can_read:
            raise IOError('File not open for reading')
        if self.buf:
            self._flush(True)

    def _out(self, data):
        if self.text:
            return data.decode(self.text)
        return data

    def read(self, n=-1):
        self._rd()
        if n is None or n < 0:
            while self._fill():
                pass
            n = len(self.rbuf) - self.rpos
        else:
            while len(self.rbuf) - self.rpos < n and self._fill():
                pass
        data = self.rbuf[self.rpos:self.rpos + n]
        self.rpos += len(data)
        return self._out(data)

    def readline(self, n=-1):
        self._rd()
        start = self.rpos
        while True:
            i = self.rbuf.find('\n', start)
            if i >= 0:
                end = i + 1
                break
            start = len(self.rbuf) - self.rpos
            if not self._fill():
                end = len(self.rbuf)
                break
        if n is not None and n >= 0:
            end = min(end, self.rpos + n)
        data = self.rbuf[self.rpos:end]
        self.rpos = end
        return self._out(data)

    def readlines(self, hint=-1):
        return list(self)

    def __iter__(self):
        return self

    def next(self):
        l = self.readline()
        if not l:
            raise StopIteration
        return l
    __next__ = next
    xreadlines = __iter__

    def _unread(self):
        left = len(self.rbuf) - self.rpos
        if left:
            self.f.seek(-left, 1)
        self.rbuf, self.rpos = '', 0

    def seek(self, off, whence=0):
        self._live()
        if self.buf:
            self._flush(True)
        self._unread()
        self.f.seek(off, whence)

    def tell(self):
        self._live()
        if self.buf:
            self._flush(True)
        self._unread()
        return self.f.tell()

    def fileno(self):
        self._live()
        return self

    def isatty(self):
        return False

    def readable(self):
        return self.can_read

    def writable(self):
        return self.can_write

    def seekable(self):
        return True


# ----------------------------------------------------------------- the patches
def sim_open(name, mode='r', *a, **k):
    c = _fs(name) if isinstance(name, basestring) else None
    if c is None:
        return R['open'](name, mode, *a, **k)
    s, fs, p = c
    act = s.io('open' + mode[0], p)
    _act(s, act, IOError, name)
    if fs.full and mode[0] in 'wa' and not R['exists'](p) and \
            s.ch.flip(1, 2, 'noinode'):
        s.fault('io-enospc')
        raise _err('ENOSPC', IOError, name)
    return SimFile(s, fs, p, name, mode)


def sim_io_open(name, mode='r', buffering=-1, encoding=None, errors=None,
                newline=None, closefd=True):
    c = _fs(name) if isinstance(name, basestring) else None
    if c is None:
        return R['io.open'](name, mode, buffering, encoding, errors, newline,
                            closefd)
    s, fs, p = c
    _act(s, s.io('open' + mode[0], p), IOError, name)
    return SimFile(s, fs, p, name, mode,
                   None if 'b' in mode else (encoding or 'utf-8'))


def _path_fn(key, op, cls=OSError, change=False):
    real = R[key]

    def fn(path, *a, **k):
        c = _fs(path) if isinstance(path, basestring) else None
        if c is not None:
            s, fs, p = c
            _act(s, s.io(op, p), cls, path)
            if change:
                fs.dirty(p)
        return real(path, *a, **k)
    return fn


def sim_mkdir(path, *a):
    c = _fs(path)
    if c is not None:
        s, fs, p = c
        _act(s, s.io('mkdir', p), OSError, path)
        if fs.full and not R['exists'](p) and s.ch.flip(1, 2, 'nodir'):
            s.fault('io-enospc')
            raise _err('ENOSPC', OSError, path)
    return R['mkdir'](path, *a)


def sim_rename(src, dst):
    c = _fs(dst) or _fs(src)
    if c is None:
        return R['rename'](src, dst)
    s, fs, p = c
    _act(s, s.io('rename', p), OSError, src)
    a, b = os.path.abspath(src), os.path.abspath(dst)
    if os.path.isdir(a):
        return R['rename'](src, dst)
    durable = a not in fs.synced          # the data was synced
    fs.dirty(b)
    old = fs.synced[b]
    R['rename'](src, dst)
    fs.synced.pop(a, None)
    if durable:
        # the data is safe; the name itself may still be the old one
        fs.sync(b)
        fs.renamed[b] = old


def sim_listdir(path='.'):
    c = _fs(path)
    if c is None:
        return R['listdir'](path)
    s, fs, p = c
    _act(s, s.io('listdir', p), OSError, path)
    names = sorted(R['listdir'](path))
    if fs.order and len(names) > 1:
        names = s.ch.shuffled(names, 'listdir')
    return names


def sim_fsync(fd):
    if isinstance(fd, SimFile):
        fd._live()
        act = fd.s.io('fsync', fd.path)
        _act(fd.s, act, OSError, fd.name)
        fd.fs.sync(fd.path)
        return None
    s = core.SIM
    if s is not None and s.cur is not None and s.fds.get(id(fd)):
        s.fs.sync(s.fds[id(fd)][1])
        return None
    return R['fsync'](fd)


def sim_os_open(path, flags, *a):
    c = _fs(path)
    if c is None:
        return R['os.open'](path, flags, *a)
    s, fs, p = c
    _act(s, s.io('open', p), OSError, path)
    fs.dirty(p)
    fd = R['os.open'](path, flags, *a)
    s.fds[id(fd)] = (fd, p)
    return fd


def sim_fdopen(fd, mode='r', *a):
    s = core.SIM
    if s is not None and s.cur is not None and id(fd) in s.fds:
        _, p = s.fds.pop(id(fd))
        R['os.close'](fd)
        return SimFile(s, s.fs, p, p, mode.replace('w', 'r+').replace('+b+',
                                                                      '+b'))
    return R['fdopen'](fd, mode, *a)


def sim_os_write(fd, data):
    s = core.SIM
    if s is not None and s.cur is not None and id(fd) in s.fds:
        _, p = s.fds[id(fd)]
        act = s.io('write', p)
        if act is not None:
            k = s.ch.pick(len(data) + 1, 'partial')
            R['os.write'](fd, data[:k])
            _act(s, act, OSError, p)
    return R['os.write'](fd, data)


def sim_os_close(fd):
    s = core.SIM
    if isinstance(fd, SimFile):
        return fd.close()
    if s is not None and s.cur is not None and id(fd) in s.fds:
        s.io('close', s.fds[id(fd)][1])
        del s.fds[id(fd)]
    return R['os.close'](fd)


def sim_time():
    s = core.SIM
    if s is not None and s.cur is not None:
        s.clock += s.tick
        return s.clock
    return R['time']()


def sim_sleep(d):
    s = core.SIM
    if s is not None and s.cur is not None:
        s.clock += float(d)
        s.yield_point()
        return None
    return R['sleep'](d)


def sim_raw_input(prompt=''):
    s = core.SIM
    if s is not None and s.cur is not None:
        s.yield_point()
        p = s.cur.proc
        if prompt:
            sys.stdout.write(prompt)
        if p.stdin is None:
            raise EOFError()
        return p.stdin()
    return R['raw_input'](prompt)


class Stdout(object):
    """Each simulated process has its own standard output."""
    softspace = 0

    def __init__(self, real):
        self.real = real

    def write(self, text):
        s = core.SIM
        if s is not None and s.cur is not None:
            p = s.cur.proc
            if p.crashed:
                raise core.SimCrash()
            p.out_n += 1
            if p.out_n == p.out_fault_at:
                p.out_fault_at = 0
                p.out_fault()
            if len(p.stdout) < 20000:
                p.stdout.append(text)
            if s.cur.said is not None:
                s.cur.said.append(text)
            return
        self.real.write(text)

    def writelines(self, lines):
        for l in lines:
            self.write(l)

    def flush(self):
        s = core.SIM
        if s is None or s.cur is None:
            self.real.flush()

    def isatty(self):
        return False

    encoding = 'utf-8'
    errors = None


def _lock(rec):
    real = R['RLock' if rec else 'Lock']

    def make(*a, **k):
        s = core.SIM
        if s is not None and s.cur is not None:
            return core.SimLock(rec)
        return real(*a, **k)
    return make


def install():
    if R:
        return
    R.update({
        'open': __builtin__.open, 'io.open': io.open, 'mkdir': os.mkdir,
        'rename': os.rename, 'remove': os.remove, 'unlink': os.unlink,
        'rmdir': os.rmdir, 'listdir': os.listdir, 'stat': os.stat,
        'fsync': getattr(os, 'fsync', None), 'os.open': os.open,
        'fdopen': os.fdopen, 'os.write': os.write, 'os.close': os.close,
        'exists': os.path.exists, 'isfile': os.path.isfile,
        'isdir': os.path.isdir, 'getsize': os.path.getsize,
        'time': time.time, 'sleep': time.sleep,
        'raw_input': __builtin__.raw_input, 'RLock': threading.RLock,
        'Lock': threading.Lock, 'access': os.access,
    })
    __builtin__.open = sim_open
    __builtin__.raw_input = sim_raw_input
    io.open = sim_io_open
    os.mkdir = sim_mkdir
    os.rename = sim_rename
    os.remove = _path_fn('remove', 'remove', OSError, True)
    os.unlink = _path_fn('unlink', 'remove', OSError, True)
    os.rmdir = _path_fn('rmdir', 'rmdir')
    os.listdir = sim_listdir
    os.fsync = sim_fsync
    os.open = sim_os_open
    os.fdopen = sim_fdopen
    os.write = sim_os_write
    os.close = sim_os_close

    def quiet(key):
        real = R[key]

        def fn(path):
            c = _fs(path) if isinstance(path, basestring) else None
            if c is not None:
                act = c[0].io('stat', c[2])
                if act is not None and act[0] != 'error':
                    _act(c[0], act, OSError, path)
            return real(path)
        return fn
    for k in ('exists', 'isfile', 'isdir', 'getsize'):
        setattr(os.path, k, quiet(k))
    # the time module is a Java class here: put a module in its place
    import imp
    proxy = imp.new_module('time')
    for n in dir(time):
        if n in ('time', 'sleep', 'clock', 'ctime', 'gmtime', 'localtime',
                 'mktime', 'strftime', 'strptime', 'asctime', 'tzname',
                 'timezone', 'altzone', 'daylight', 'struct_time'):
            setattr(proxy, n, getattr(time, n))
    proxy.time = sim_time
    proxy.sleep = sim_sleep
    proxy.clock = sim_time
    sys.modules['time'] = proxy
    threading.RLock = _lock(True)
    threading.Lock = _lock(False)
    core.REAL_OPEN = R['open']
    sys.stdout = Stdout(sys.stdout)


def scratch():
    return tempfile.mkdtemp(prefix='dst-')


def wipe(path):
    """Remove a scratch directory this module made."""
    base = os.path.basename(path)
    if not base.startswith('dst-') or os.path.dirname(path) in ('', '/'):
        raise core.HarnessError('refusing to remove %s' % path)
    shutil.rmtree(path)
