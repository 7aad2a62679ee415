"""Simulation of saving results (code/python/store.py): several processes save
to one directory of a simulated file system, under a simulated clock. Every
file-system call is a point at which the seeded scheduler may switch to another
process, and at which a fault may be injected: full disk, I/O error, short
write, permission error, keyboard interrupt, death of the process, power loss.

One case per line on stdin, one JSON reply per line, like the C++ simulator."""
import builtins
import errno
import hashlib
import io
import json
import os
import random
import stat as statmod
import sys
import tempfile
import threading
import time
import types

import numpy

REPO = os.environ.get('VERIF_REPO', '/repo')
STORE = os.path.join(REPO, 'code/python/store.py')
ROOT = '/simulated/cwd'
FD0 = 1 << 24
BUF = 8192

real = types.SimpleNamespace(open=builtins.open, stat=os.stat, lstat=os.lstat, listdir=os.listdir,
                             osopen=os.open, close=os.close, write=os.write, read=os.read,
                             fstat=os.fstat, time=time.time, access=os.access, getpid=os.getpid,
                             localtime=time.localtime, gmtime=time.gmtime, strftime=time.strftime,
                             sleep=time.sleep, dup=os.dup, urandom=os.urandom, fsync=os.fsync,
                             fdatasync=os.fdatasync, ftruncate=os.ftruncate, lseek=os.lseek)


class Crash(BaseException):
    """The process is dead"""


class Stuck(Exception):
    pass


class Inode:
    def __init__(self):
        self.data = bytearray()
        self.durable = b''
        self.lock = None


class World:
    cur = None  # the simulation in progress

    def __init__(self, case):
        self.case = case
        self.rng = random.Random('s%s' % case.get('sseed', 1))
        self.names = {}  # path -> Inode
        self.dirs = {'/', '/simulated', ROOT}
        self.log = []  # metadata operations
        self.synced = 0
        self.fds = {}
        self.nfd = FD0
        self.procs = []
        self.ops = 0
        self.trace = []
        self.switches = []  # (op, process)
        self.plan = {}
        for t in filter(None, case.get('fault', '').split(',')):
            kind, at = t.split(':')
            self.plan[int(at)] = kind
        self.list = [int(x) for x in case['list'].split('.')] if case.get('list') else None
        self.fired = {}
        self.full = False  # the disk stays full for the rest of the phase
        self.broken = set()  # files that can not be written any more
        self.t = float(case.get('t0', 1000000.5))
        self.clock = case.get('clock', 'still')
        self.violation = None
        self.good = {}  # digest -> label of what was passed to save
        self.done = []  # arrays whose saving returned
        self.states = set()

    # ---------------------------------------------------------- scheduling
    def me(self):
        return next((p for p in self.procs if p.thread is threading.current_thread()), None)

    def point(self, what, path=None):
        """Every simulated call passes here first"""
        p = self.me()
        if p is None:
            return None
        if p.dead:
            raise Crash()
        k = self.ops
        self.ops += 1
        if self.ops > 20000:
            self.fail('progress', 'no end after %d calls' % self.ops)
            self.kill_all()
            raise Crash()
        self.choose(p, k)
        if p.dead:
            raise Crash()
        self.trace.append('%d:%s(%s)' % (p.id, what, os.path.basename(path) if path else ''))
        self.tick()
        f = self.plan.get(k)
        if f == 'die':
            self.fire('death of the process')
            p.dead = True
            raise Crash()
        if f == 'power':
            self.fire('power loss')
            self.power = True
            self.kill_all()
            raise Crash()
        if f == 'int':
            self.fire('interrupt')
            raise KeyboardInterrupt()
        return f

    def fire(self, k):
        self.fired[k] = self.fired.get(k, 0) + 1

    def choose(self, p, k):
        ready = [q for q in self.procs if q.alive()]
        if len(ready) < 2:
            return
        if self.list is not None:
            want = self.list[k] if k < len(self.list) else p.id
            q = next((q for q in ready if q.id == want), p)
        else:
            q = self.rng.choice(ready) if self.rng.random() < float(self.case.get('sw', .3)) else p
        while len(self.switches) <= k:
            self.switches.append(q.id)
        self.switches[k] = q.id
        if q is not p:
            self.fire('switch')
            self.hand(q)
            p.wait()

    def hand(self, q):
        q.sem.release()

    def kill_all(self):
        for q in self.procs:
            q.dead = True

    def tick(self):
        c = self.clock
        if c == 'slow':
            self.t += .001
        elif c == 'jumpy':
            self.t += self.rng.choice([0, 0, .4, 1, -1, -1.5, 30, -30])
        elif c == 'back':
            self.t -= .3

    # ---------------------------------------------------------- checking
    def fail(self, cls, text):
        if not self.violation:
            self.violation = (cls, text)

    def look(self, when):
        """What exists under the name of a result is a complete result"""
        seen = {}
        for path, node in list(self.names.items()):
            if is_result(path):
                d = hashlib.sha256(bytes(node.data)).hexdigest()
                if d not in self.good:
                    lab = self.parse(bytes(node.data))
                    if lab is None:
                        self.fail('incomplete', '%s: %s holds %d bytes that are not a complete result' %
                                  (when, os.path.basename(path), len(node.data)))
                        return seen
                    self.good[d] = lab
                seen.setdefault(self.good[d], []).append(path)
        self.states.add(hashlib.sha256(repr(sorted((k, bytes(v.data[:64]), len(v.data)) for k, v in
                                                   self.names.items())).encode()).hexdigest()[:16])
        return seen

    def parse(self, data):
        try:
            a = numpy.load(io.BytesIO(data))
        except Exception:
            return None
        for p in self.procs:
            if a.shape == p.data.shape and a.dtype == p.data.dtype and \
                    (a.view('u8') == p.data.view('u8')).all():
                return p.id
        return None

    # ---------------------------------------------------------- namespace
    def path(self, path):
        if isinstance(path, int):
            return None
        path = os.fspath(path)
        if isinstance(path, bytes):
            path = os.fsdecode(path)
        path = os.path.normpath(path if path.startswith('/') else ROOT + '/' + path)
        return path if path.startswith('/simulated') else None

    def meta(self, op):
        self.log.append(op)
        apply_meta(self.names, self.dirs, op)

    def parent(self, path):
        if os.path.dirname(path) not in self.dirs:
            raise OSError(errno.ENOENT, 'No such file or directory', path)

    def power_loss(self):
        """Only what is durable survives: a prefix of the metadata operations, and
        of each file what was synchronised plus a part of what was not"""
        r = self.rng
        keep = r.randrange(self.synced, len(self.log) + 1)
        names, dirs = {}, {'/', '/simulated', ROOT}
        for op in self.log[:keep]:
            apply_meta(names, dirs, op)
        for node in set(names.values()):
            d, c = node.durable, bytes(node.data)
            if d != c:
                n = r.choice([0, len(c), r.randrange(len(c) + 1)]) if len(c) else 0
                data = c[:n]
                if c.startswith(d) and n < len(d):
                    data = d
                if r.random() < .3:
                    data += b'\0' * (len(c) - len(data))
                node.data = bytearray(data)
            node.durable = bytes(node.data)
            node.lock = None
        self.names, self.dirs = names, dirs
        self.log = [('mkdir', d) for d in sorted(dirs)] + [('create', n, i) for n, i in names.items()]
        self.synced = len(self.log)
        self.fds = {}


def is_result(path):
    name = os.path.basename(path)
    return name.endswith('.npy') and not name.startswith('.') and 'tmp' not in name and 'part' not in name


def apply_meta(names, dirs, op):
    if op[0] == 'create':
        names[op[1]] = op[2]
    elif op[0] == 'unlink':
        names.pop(op[1], None)
    elif op[0] == 'rename':
        if op[1] in names:
            names[op[2]] = names.pop(op[1])
        elif op[1] in dirs:
            for d in [d for d in dirs if d == op[1] or d.startswith(op[1] + '/')]:
                dirs.discard(d)
                dirs.add(op[2] + d[len(op[1]):])
            for n in [n for n in names if n.startswith(op[1] + '/')]:
                names[op[2] + n[len(op[1]):]] = names.pop(n)
    elif op[0] == 'link':
        if op[1] in names:
            names[op[2]] = names[op[1]]
    elif op[0] == 'mkdir':
        dirs.add(op[1])
    elif op[0] == 'rmdir':
        dirs.discard(op[1])


class Desc:
    def __init__(self, node, path, readable, writable, append):
        self.node, self.path, self.r, self.w, self.a = node, path, readable, writable, append
        self.pos = 0
        self.isdir = node is None


def fault_error(f, path=None):
    w = World.cur
    if f in ('io', 'nospace', 'perm'):
        e = {'io': errno.EIO, 'nospace': errno.ENOSPC, 'perm': errno.EACCES}[f]
        w.fire({'io': 'I/O error', 'nospace': 'full disk', 'perm': 'permission denied'}[f])
        raise OSError(e, os.strerror(e), path)


# -------------------------------------------------------------- system calls
def sys_open(path, flags, mode=0o777, **kw):
    w = World.cur
    p = w and w.me() and w.path(path)
    if not p:
        return real.osopen(path, flags, mode, **kw)
    f = w.point('open', p)
    acc = flags & 3
    if acc or flags & os.O_CREAT:
        fault_error(f, p)
    elif f == 'io' or f == 'perm':
        fault_error(f, p)
    if p in w.dirs:
        if acc:
            raise IsADirectoryError(errno.EISDIR, 'Is a directory', p)
        node = None
    else:
        w.parent(p)
        node = w.names.get(p)
        if node is None:
            if not flags & os.O_CREAT:
                raise FileNotFoundError(errno.ENOENT, 'No such file or directory', p)
            node = Inode()
            w.meta(('create', p, node))
        elif flags & os.O_CREAT and flags & os.O_EXCL:
            raise FileExistsError(errno.EEXIST, 'File exists', p)
        elif flags & os.O_TRUNC:
            node.data = bytearray()
    w.nfd += 1
    w.fds[w.nfd] = Desc(node, p, acc in (os.O_RDONLY, os.O_RDWR), acc != os.O_RDONLY, bool(flags & os.O_APPEND))
    w.look('after open')
    return w.nfd


def desc(fd):
    w = World.cur
    if not w or not isinstance(fd, int) or fd < FD0:
        return None
    if fd not in w.fds:
        raise OSError(errno.EBADF, 'Bad file descriptor')
    return w.fds[fd]


def sys_write(fd, data):
    d = desc(fd)
    if d is None:
        return real.write(fd, data)
    w = World.cur
    data = bytes(data)
    f = w.point('write', d.path)
    if not d.w:
        raise OSError(errno.EBADF, 'Bad file descriptor')
    if d.node in w.broken or f == 'bad':
        w.broken.add(d.node)
        f = 'io'
    if w.full and data:
        fault_error('nospace', d.path)
    if f in ('io', 'nospace') and data:
        # part of it may have been written
        n = w.rng.randrange(len(data)) if f == 'nospace' else 0
        if f == 'nospace':
            w.full = True
        if n:
            w.fire('short write')
            put(d, data[:n])
            w.look('after a short write')
            return n
        fault_error(f, d.path)
    if f == 'short' and len(data) > 1:
        w.fire('short write')
        data = data[:w.rng.randrange(1, len(data))]
    put(d, data)
    w.look('after write')
    return len(data)


def put(d, data):
    if d.a:
        d.pos = len(d.node.data)
    if len(d.node.data) < d.pos:
        d.node.data += b'\0' * (d.pos - len(d.node.data))
    d.node.data[d.pos:d.pos + len(data)] = data
    d.pos += len(data)


def sys_read(fd, n):
    d = desc(fd)
    if d is None:
        return real.read(fd, n)
    fault = World.cur.point('read', d.path)
    if fault == 'io':
        fault_error(fault, d.path)
    r = bytes(d.node.data[d.pos:d.pos + n])
    d.pos += len(r)
    return r


def sys_close(fd):
    d = desc(fd)
    if d is None:
        return real.close(fd)
    w = World.cur
    w.point('close', d.path)
    if d.node is not None and d.node.lock == fd:
        d.node.lock = None
    del w.fds[fd]


def sys_fsync(fd):
    if hasattr(fd, 'fileno'):
        fd = fd.fileno()
    d = desc(fd)
    if d is None:
        return real.fsync(fd)
    w = World.cur
    f = w.point('fsync', d.path)
    if f == 'bad' or d.node in w.broken:
        w.broken.add(d.node)
        f = 'io'
    fault_error(f, d.path)
    if d.node is not None:
        d.node.durable = bytes(d.node.data)
    w.synced = len(w.log)


def sys_ftruncate(fd, n):
    d = desc(fd)
    if d is None:
        return real.ftruncate(fd, n)
    World.cur.point('truncate', d.path)
    del d.node.data[n:]
    d.node.data += b'\0' * (n - len(d.node.data))
    World.cur.look('after truncate')


def sys_lseek(fd, pos, how):
    d = desc(fd)
    if d is None:
        return real.lseek(fd, pos, how)
    d.pos = {0: 0, 1: d.pos, 2: len(d.node.data)}[how] + pos
    return d.pos


def sys_rename(src, dst, **kw):
    w = World.cur
    a, b = w.path(src), w.path(dst)
    f = w.point('rename', b)
    fault_error(f, b)
    if a not in w.names and a not in w.dirs:
        raise FileNotFoundError(errno.ENOENT, 'No such file or directory', a)
    w.parent(b)
    w.meta(('rename', a, b))
    w.look('after rename')


def sys_link(src, dst, **kw):
    w = World.cur
    a, b = w.path(src), w.path(dst)
    f = w.point('link', b)
    fault_error(f, b)
    if a not in w.names:
        raise FileNotFoundError(errno.ENOENT, 'No such file or directory', a)
    if b in w.names:
        raise FileExistsError(errno.EEXIST, 'File exists', b)
    w.parent(b)
    w.meta(('link', a, b))
    w.look('after link')


def sys_unlink(path, **kw):
    w = World.cur
    p = w.path(path)
    f = w.point('unlink', p)
    if f in ('io', 'perm'):
        fault_error(f, p)
    if p not in w.names:
        raise FileNotFoundError(errno.ENOENT, 'No such file or directory', p)
    w.meta(('unlink', p))


def sys_mkdir(path, mode=0o777, **kw):
    w = World.cur
    p = w.path(path)
    f = w.point('mkdir', p)
    fault_error(f, p)
    if p in w.dirs or p in w.names:
        raise FileExistsError(errno.EEXIST, 'File exists', p)
    w.parent(p)
    w.meta(('mkdir', p))


def sys_rmdir(path, **kw):
    w = World.cur
    p = w.path(path)
    w.point('rmdir', p)
    if p not in w.dirs:
        raise FileNotFoundError(errno.ENOENT, 'No such file or directory', p)
    if any(x.startswith(p + '/') for x in list(w.names) + list(w.dirs)):
        raise OSError(errno.ENOTEMPTY, 'Directory not empty', p)
    w.meta(('rmdir', p))


def status(node):
    m = statmod.S_IFDIR | 0o755 if node is None else statmod.S_IFREG | 0o644
    n = 0 if node is None else len(node.data)
    t = int(World.cur.t)
    return os.stat_result((m, id(node) & 0xffffff, 1, 1, 0, 0, n, t, t, t))


def sys_stat(path, **kw):
    w = World.cur
    if w and w.me():
        d = desc(path) if isinstance(path, int) else None
        if d:
            return status(d.node)
        p = w.path(path)
        if p:
            w.point('stat', p)
            if p in w.dirs:
                return status(None)
            if p in w.names:
                return status(w.names[p])
            raise FileNotFoundError(errno.ENOENT, 'No such file or directory', p)
    return real.stat(path, **kw)


def sys_listdir(path='.'):
    w = World.cur
    p = w and w.me() and w.path(path)
    if not p:
        return real.listdir(path)
    w.point('listdir', p)
    if p not in w.dirs:
        raise FileNotFoundError(errno.ENOENT, 'No such file or directory', p)
    return sorted({x[len(p) + 1:].split('/')[0] for x in list(w.names) + list(w.dirs) if x.startswith(p + '/')})


def sys_access(path, mode, **kw):
    try:
        sys_stat(path)
        return True
    except OSError:
        return False


class File(io.BufferedIOBase):
    """A buffered binary file on a simulated descriptor"""

    def __init__(self, fd, name, mode, buffering=BUF):
        self.fd, self.name, self.mode = fd, name, mode
        self.size = buffering
        self.buf = bytearray()

    def fileno(self):
        self._open()
        return self.fd

    def _open(self):
        if self.closed:
            raise ValueError('I/O operation on closed file.')

    def readable(self):
        return World.cur.fds[self.fd].r

    def writable(self):
        return World.cur.fds[self.fd].w

    def seekable(self):
        return True

    def isatty(self):
        return False

    def write(self, b):
        self._open()
        World.cur.point('put', self.name if isinstance(self.name, str) else None)
        b = memoryview(b).cast('B') if not isinstance(b, (bytes, bytearray)) else b
        if self.size == 0:
            return os.write(self.fd, b)
        self.buf += b
        if len(self.buf) > self.size:
            self._flush()
        return len(b)

    def _flush(self):
        while self.buf:
            n = os.write(self.fd, bytes(self.buf))
            del self.buf[:n]

    def flush(self):
        self._open()
        self._flush()

    def read(self, n=-1):
        self._open()
        self._flush()
        if n is None or n < 0:
            n = 1 << 40
        return os.read(self.fd, n)

    read1 = read

    def readinto(self, b):
        r = self.read(len(b))
        b[:len(r)] = r
        return len(r)

    def seek(self, pos, how=0):
        self._open()
        self._flush()
        return os.lseek(self.fd, pos, how)

    def tell(self):
        self._open()
        return os.lseek(self.fd, 0, 1) + len(self.buf)

    def truncate(self, n=None):
        self._flush()
        os.ftruncate(self.fd, self.tell() if n is None else n)

    def close(self):
        if self.closed:
            return
        try:
            self._flush()
        finally:
            io.BufferedIOBase.close(self)
            os.close(self.fd)

    def __del__(self):
        pass


def sys_pyopen(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    w = World.cur
    inside = w and w.me() and (file >= FD0 if isinstance(file, int) else w.path(file))
    if not inside:
        return real.open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    m = mode.replace('b', '').replace('t', '')
    if isinstance(file, int):
        fd = file
    else:
        flags = {'r': os.O_RDONLY, 'w': os.O_WRONLY | os.O_CREAT | os.O_TRUNC,
                 'x': os.O_WRONLY | os.O_CREAT | os.O_EXCL, 'a': os.O_WRONLY | os.O_CREAT | os.O_APPEND}[m[0]]
        if '+' in m:
            flags = flags & ~3 | os.O_RDWR
        fd = opener(file, flags) if opener else sys_open(file, flags)
    f = File(fd, file, mode, BUF if buffering < 0 else buffering)
    if 'b' in mode:
        return f
    return io.TextIOWrapper(f, encoding or 'utf8', errors, newline)


def sys_time():
    w = World.cur
    if w and w.me():
        w.point('time')
        return w.t
    return real.time()


def clock_of(f):
    def g(t=None):
        return f(sys_time() if t is None else t)
    return g


def sys_strftime(fmt, t=None):
    return real.strftime(fmt, time.localtime() if t is None else t)


def sys_sleep(s):
    w = World.cur
    if w and w.me():
        w.t += s
        w.point('sleep')
    else:
        real.sleep(s)


def sys_getpid():
    w = World.cur
    p = w and w.me()
    return 1000 + p.id if p else real.getpid()


def sys_flock(fd, how):
    if hasattr(fd, 'fileno'):
        fd = fd.fileno()
    d = desc(fd)
    w = World.cur
    while True:
        w.point('flock', d.path)
        if how & 8:
            if d.node.lock == fd:
                d.node.lock = None
            return
        if d.node.lock in (None, fd) or d.node.lock not in w.fds:
            d.node.lock = fd
            return
        if how & 4:
            raise BlockingIOError(errno.EWOULDBLOCK, 'locked')


def install():
    os.open, os.write, os.read, os.close = sys_open, sys_write, sys_read, sys_close
    os.fsync = os.fdatasync = sys_fsync
    os.ftruncate, os.lseek = sys_ftruncate, sys_lseek
    os.rename = os.replace = sys_rename
    os.link, os.unlink, os.remove = sys_link, sys_unlink, sys_unlink
    os.mkdir, os.rmdir, os.listdir = sys_mkdir, sys_rmdir, sys_listdir
    os.stat = os.lstat = sys_stat
    os.fstat = sys_stat
    os.access = sys_access
    os.getpid = sys_getpid
    os.fdopen = sys_pyopen
    os.sync = lambda: None
    builtins.open = io.open = sys_pyopen
    # in case these were built into the path functions
    def exists(p):
        try:
            os.stat(p)
        except (OSError, ValueError):
            return False
        return True

    def kind(test):
        def f(p):
            try:
                return test(os.stat(p).st_mode)
            except (OSError, ValueError):
                return False
        return f
    os.path.exists = os.path.lexists = exists
    os.path.isfile, os.path.isdir = kind(statmod.S_ISREG), kind(statmod.S_ISDIR)
    os.path.islink = lambda p: False
    os.getcwd = lambda: ROOT
    time.time = sys_time
    time.time_ns = lambda: int(sys_time() * 1e9)
    time.localtime, time.gmtime = clock_of(real.gmtime), clock_of(real.gmtime)
    time.strftime, time.sleep = sys_strftime, sys_sleep
    try:
        import fcntl
        fcntl.flock = fcntl.lockf = sys_flock
    except ImportError:
        pass


# -------------------------------------------------------------- processes
class Proc:
    def __init__(self, w, k, phase):
        self.w, self.id, self.phase = w, k, phase
        self.sem = threading.Semaphore(0)
        self.dead = self.ended = False
        self.outcome = None
        c = w.case
        n = int(c.get('n', 40)) + k
        r = numpy.random.RandomState(int(c.get('dseed', 1)) * 31 + k)
        self.data = numpy.array(r.rand(int(c.get('slots', 3)), n, 3))
        self.name = c.get('names', 'one') == 'one' and 'impact' or 'impact%d' % (k % 2)
        self.thread = None

    def alive(self):
        return self.thread is not None and not self.ended and not self.dead

    def wait(self):
        self.sem.acquire()

    def run(self):
        self.wait()
        w = self.w
        try:
            if not self.dead:
                ns = {'__name__': 'store', '__file__': STORE}
                exec(CODE, ns)

                def problem():
                    pass
                problem.__name__ = self.name
                ns['save_results'](list(self.data), problem, 2, .8, True, 1)
                self.outcome = 'saved'
                w.done.append(self.id)
        except Crash:
            self.outcome = 'died'
        except KeyboardInterrupt:
            self.outcome = 'interrupted'
        except OSError as x:
            self.outcome = 'error %s' % errno.errorcode.get(x.errno, x.errno)
        except BaseException as x:
            self.outcome = 'exception %s: %s' % (type(x).__name__, x)
        self.ended = True
        nxt = [q for q in w.procs if q.thread is not None and not q.ended]
        (w.rng.choice(nxt) if w.list is None else nxt[0]).sem.release() if nxt else w.main.release()


def simulate(case):
    global CODE
    CODE = compile(real.open(STORE, encoding='utf8').read(), STORE, 'exec')
    w = World(case)
    World.cur = w
    w.power = False
    w.main = threading.Semaphore(0)
    tempfile._name_sequence = iter('t%d' % i for i in range(10**6))
    random.seed(int(case.get('dseed', 1)))
    phases = [int(x) for x in case.get('procs', '2').split(',')]
    k = 0
    lost = set()
    for ph, n in enumerate(phases):
        now = []
        for _ in range(n):
            p = Proc(w, k, ph)
            k += 1
            now.append(p)
        w.procs += now
        for p in now:
            p.thread = threading.Thread(target=p.run, daemon=True)
            p.thread.start()
        (w.rng.choice(now) if w.list is None else now[0]).sem.release()
        if not w.main.acquire(timeout=60):
            return w, 'stuck'
        for p in now:
            p.thread.join()
        w.look('at the end')
        if w.power:
            w.power = False
            # what was being renamed may be gone altogether, but nothing is torn
            lost |= set(w.done)
            before = w.look('before the power loss')
            w.power_loss()
            w.look('after the power loss')
        w.full = False
        if ph + 1 < len(phases):
            w.t += float(case.get('dt', 0))
    seen = w.look('at the end')
    for p in w.procs:
        if p.id in w.done and p.id not in seen and p.id not in lost:
            w.fail('lost', 'the results of process %d were saved but are gone; left: %s' %
                   (p.id, ', '.join(sorted(map(os.path.basename, w.names)))))
        if p.outcome and p.outcome.startswith('exception'):
            w.fail('exception', 'process %d: %s' % (p.id, p.outcome))
        if p.outcome != 'saved' and not w.fired.keys() - {'switch', 'short write'}:
            w.fail('error', 'without any fault process %d ends with %s' % (p.id, p.outcome))
    # after all faults, one more run must be able to save
    if not w.violation and w.plan:
        w.plan = {}
        w.full = False
        p = Proc(w, k, len(phases))
        w.procs.append(p)
        p.thread = threading.Thread(target=p.run, daemon=True)
        p.thread.start()
        p.sem.release()
        if not w.main.acquire(timeout=60):
            return w, 'stuck'
        p.thread.join()
        seen2 = w.look('at the end')
        if p.outcome != 'saved' or p.id not in seen2:
            w.fail('afterwards', 'after the faults a run ends with %s and cannot save its results' % p.outcome)
        for d in seen:
            if d not in seen2:
                w.fail('lost', 'the results of process %d are gone after another run was saved' % d)
    return w, None


def main():
    sys.unraisablehook = lambda x: None
    install()
    out = real.open(1, 'w', buffering=1, closefd=False)
    for line in real.open(0, closefd=False):
        case = dict(t.split('=', 1) for t in line.split())
        res = dict(id=case.get('id'), cls='', reason='', execs=1, steps=0, simtime=0)
        try:
            w, err = simulate(case)
            World.cur = None
            if err:
                res.update(verdict='error', reason=err)
            elif w.violation:
                res.update(verdict='fail', cls=w.violation[0], reason=w.violation[1],
                           list='.'.join(map(str, w.switches)))
            else:
                res['verdict'] = 'ok'
            text = ' '.join(w.trace) + repr([(p.id, p.outcome) for p in w.procs]) + \
                repr(sorted((n, hashlib.sha256(bytes(i.data)).hexdigest()) for n, i in w.names.items()))
            res.update(hash=hashlib.sha256(text.encode()).hexdigest()[:16], nontrivial=int(w.ops > 8),
                       steps=w.ops, opps=w.ops, switches=w.fired.get('switch', 0), simtime=w.ops * .001,
                       faults={k: v for k, v in w.fired.items() if k != 'switch'},
                       outcomes={}, scheds=[hashlib.sha256(' '.join(w.trace).encode()).hexdigest()[:16]],
                       states=sorted(w.states), trace=w.trace[-60:] if case.get('show') else [])
            for p in w.procs:
                o = p.outcome or 'none'
                res['outcomes'][o] = res['outcomes'].get(o, 0) + 1
        except BaseException as x:
            World.cur = None
            res.update(verdict='error', reason='%s: %s' % (type(x).__name__, x))
        out.write(json.dumps(res) + '\n')
        out.flush()


main()
