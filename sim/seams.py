"""Seams owned by the simulator.  Installed *before* nempy is imported, so every import style sees them.

 - clock      : time.sleep advances simulated time, nothing ever really sleeps
 - network    : requests' transport adapter (HTTPAdapter.send) is answered by a simulated nemweb; real sockets refuse
 - disk       : opens for writing, renames, removals, mkdirs under the simulated root are counted events that can fail
 - sqlite     : a Connection/Cursor subclass whose every statement, batch row and commit is an event that can fail
 - solver     : mip.Model.optimize is an event that can fail
"""
import builtins
import errno
import importlib.machinery
import io
import os
import shutil
import socket
import sqlite3
import sys
import time

from .core import SimCrash, HarnessError

_installed = False


class Env:
    """What the running world plugs into the seams; None means 'not simulated: refuse'."""
    clock = None      # object with .advance(seconds)
    net = None        # callable(PreparedRequest) -> requests.Response (or raises)
    disk = None       # Disk
    solver = None     # callable(model, real_optimize, args, kwargs) -> status


ENV = Env()


# ------------------------------------------------------------------------------------------------ process boundaries
_code = {}


class _Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        if fullname not in _code:
            _code[fullname] = super().get_code(fullname)
        return _code[fullname]


class _Finder:
    """loads nempy from its source once, however many simulated processes import it"""
    @staticmethod
    def find_spec(name, path=None, target=None):
        if name != 'nempy' and not name.startswith('nempy.'):
            return None
        spec = importlib.machinery.PathFinder.find_spec(name, path, target)
        if spec is not None and isinstance(spec.loader, importlib.machinery.SourceFileLoader):
            spec.loader = _Loader(name, spec.origin)
        return spec


def _loaded():
    return [n for n in sys.modules if n == 'nempy' or n.startswith('nempy.')]


def new_process():
    """what follows imports nempy anew: nothing a former simulated process kept in its modules survives"""
    for n in _loaded():
        del sys.modules[n]


class other_process:
    """nempy as another process that runs at the same time has it: with modules of its own"""
    def __enter__(self):
        self.kept = {n: sys.modules[n] for n in _loaded()}
        new_process()

    def __exit__(self, *a):
        new_process()
        sys.modules.update(self.kept)


def _sleep(seconds):
    if ENV.clock is None:
        return
    ENV.clock(float(seconds))


def install():
    global _installed
    if _installed:
        return
    _installed = True
    if 'nempy' in sys.modules:
        raise HarnessError('seams must be installed before nempy is imported')
    sys.meta_path.insert(0, _Finder)
    time.sleep = _sleep
    import requests
    import requests.adapters

    def send(self, request, **kw):
        if ENV.net is None:
            raise requests.ConnectionError('no simulated network in this world')
        return ENV.net(request)

    requests.adapters.HTTPAdapter.send = send

    real_connect = socket.socket.connect

    def no_connect(self, addr):
        if self.family in (socket.AF_INET, socket.AF_INET6):
            raise OSError(errno.ENETUNREACH, 'the simulator refuses real sockets')
        return real_connect(self, addr)
    socket.socket.connect = no_connect

    _install_disk()
    import mip
    import mip.model
    real_opt = mip.model.Model.optimize

    def optimize(self, *a, **k):
        if ENV.solver is None:
            return real_opt(self, *a, **k)
        return ENV.solver(self, lambda: real_opt(self, *a, **k))
    mip.model.Model.optimize = optimize


# ------------------------------------------------------------------------------------------------ http responses
def response(request, status, body):
    import requests
    r = requests.Response()
    r.status_code = status
    r.raw = io.BytesIO(body)
    r._content = body
    r._content_consumed = True
    r.url = request.url
    r.request = request
    r.reason = {200: 'OK', 404: 'Not Found', 403: 'Forbidden', 500: 'Internal Server Error',
                503: 'Service Unavailable', 429: 'Too Many Requests'}.get(status, '')
    r.headers['Content-Length'] = str(len(body))
    return r


# ------------------------------------------------------------------------------------------------ disk
class Disk:
    """Fault plan over events under `root`.  Each open-for-write, write, close, rename, remove, mkdir is one event."""

    def __init__(self, root, ctx):
        self.root = os.path.realpath(root)
        self.ctx = ctx
        self.n = 0
        self.plan = {}        # event index -> fault name
        self.dead = False
        self.hook = None      # callable(event_index, what) run before the event: interleaving point
        self.in_hook = False
        self.writes = []      # paths written (relative)
        self.base = 0

    def begin_op(self, plan):
        self.plan = dict(plan)
        self.n = 0

    def inside(self, path):
        try:
            p = os.path.realpath(os.fspath(path))
        except TypeError:
            return False
        if isinstance(p, bytes):
            p = p.decode()
        return p == self.root or p.startswith(self.root + os.sep)

    def event(self, what):
        """Returns the fault to apply at this event, or None."""
        if self.dead:
            raise SimCrash('dead')
        if self.in_hook:
            return None
        k = self.n
        self.n += 1
        if self.hook is not None:
            self.in_hook = True
            try:
                self.hook(k, what)
            finally:
                self.in_hook = False
        f = self.plan.get(k)
        if f is None:
            return None
        self.ctx.fault('disk-' + f)
        if f == 'enospc':
            raise OSError(errno.ENOSPC, 'No space left on device (simulated)')
        if f == 'eio':
            raise OSError(errno.EIO, 'Input/output error (simulated)')
        if f == 'eacces':
            raise PermissionError(errno.EACCES, 'Permission denied (simulated)')
        if f == 'crash':
            self.dead = True
            raise SimCrash('crash')
        return f       # 'torn-crash', 'torn-enospc': applied by the writer


class _SimFile:
    """Write-mode file under the simulated root.  Unbuffered with respect to crashes: what write() accepted is on disk,
    a torn write leaves a prefix."""

    def __init__(self, disk, f):
        self._disk = disk
        self._f = f

    def write(self, data):
        if self._disk.dead:
            raise SimCrash('dead')
        f = self._disk.event('write')
        if f in ('torn-crash', 'torn-enospc'):
            self._f.write(data[:len(data) // 2])
            self._f.flush()
            if f == 'torn-crash':
                self._disk.dead = True
                raise SimCrash('crash')
            raise OSError(errno.ENOSPC, 'No space left on device (simulated, after a short write)')
        n = self._f.write(data)
        self._f.flush()
        return n

    def writelines(self, lines):
        for line in lines:
            self.write(line)

    def close(self):
        self._f.close()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def __getattr__(self, name):
        return getattr(self._f, name)

    def __iter__(self):
        return iter(self._f)


def _install_disk():
    real_open = builtins.open

    def sim_open(file, mode='r', *a, **k):
        d = ENV.disk
        if d is None or isinstance(file, int) or not d.inside(file):
            return real_open(file, mode, *a, **k)
        if d.dead:
            raise SimCrash('dead')
        if any(c in mode for c in 'wax+'):
            f = d.event('open-write')
            if f in ('torn-crash',):
                d.dead = True
                raise SimCrash('crash')
            if f == 'torn-enospc':
                raise OSError(errno.ENOSPC, 'No space left on device (simulated)')
            d.writes.append(os.path.relpath(os.path.realpath(os.fspath(file)), d.root))
            return _SimFile(d, real_open(file, mode, *a, **k))
        f = d.event('open-read')
        if f in ('torn-crash',):
            d.dead = True
            raise SimCrash('crash')
        if f == 'torn-enospc':
            raise OSError(errno.EIO, 'Input/output error (simulated)')
        return real_open(file, mode, *a, **k)

    builtins.open = sim_open
    io.open = sim_open

    def wrap(modname, name, npaths):
        mod = sys.modules[modname]
        real = getattr(mod, name)

        def f(*a, **k):
            d = ENV.disk
            if d is not None and d.dead:          # a dead process removes and renames nothing (also dir_fd calls)
                raise SimCrash('dead')
            if d is None or not any((isinstance(p, (str, bytes, os.PathLike)) and d.inside(p)) for p in a[:npaths]):
                return real(*a, **k)
            flt = d.event(name)
            if flt == 'torn-crash':
                d.dead = True
                raise SimCrash('crash')
            if flt == 'torn-enospc':
                raise OSError(errno.ENOSPC, 'No space left on device (simulated)')
            return real(*a, **k)
        f.__name__ = name
        setattr(mod, name, f)

    for name, n in (('replace', 2), ('rename', 2), ('remove', 1), ('unlink', 1), ('mkdir', 1), ('rmdir', 1),
                    ('link', 2), ('symlink', 2), ('truncate', 1)):
        wrap('os', name, n)


# ------------------------------------------------------------------------------------------------ sqlite
class SqlPlan:
    """Event counter and fault plan for one simulated process' connection."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.n = 0
        self.many = 0
        self.plan = {}          # event -> (kind, arg)
        self.dead = False
        self.snapshot = None    # callable() -> None: copy durable files
        self.hook = None
        self.in_hook = False

    def begin_op(self, plan):
        self.plan = dict(plan)      # event index -> fault, ('many', j) -> fault inside the j-th batch of rows
        self.n = 0
        self.many = 0

    def crash(self):
        self.snapshot()
        self.dead = True
        raise SimCrash('crash')

    def before(self, what):
        if self.dead:
            raise SimCrash('dead')
        if self.in_hook:
            return None
        k = self.n
        self.n += 1
        if self.hook is not None:
            self.in_hook = True
            try:
                self.hook(k, what)
            finally:
                self.in_hook = False
        f = self.plan.get(k)
        if f is None:
            return None
        kind = f[0]
        self.ctx.fault('sql-' + kind)
        if kind == 'full':
            raise sqlite3.OperationalError('database or disk is full')
        if kind == 'ioerr':
            raise sqlite3.OperationalError('disk I/O error')
        if kind == 'locked':
            raise sqlite3.OperationalError('database is locked')
        if kind == 'crash':
            self.crash()
        return f                # 'crash-after'

    def after(self, f):
        if f is not None and f[0] == 'crash-after':
            self.crash()


class SimCursor(sqlite3.Cursor):
    def execute(self, sql, *a):
        p = self.connection.sim
        f = p.before('execute')
        r = super().execute(sql, *a)
        p.after(f)
        return r

    def executemany(self, sql, seq):
        p = self.connection.sim
        f = p.before('executemany')
        row = p.plan.get(('many', p.many))
        p.many += 1
        if row is not None and not p.in_hook:
            seq = self._faulty(list(seq), row, p)
        r = super().executemany(sql, seq)
        p.after(f)
        return r

    @staticmethod
    def _faulty(seq, f, p):
        at = f[1] % max(1, len(seq))
        for i, row in enumerate(seq):
            if i == at:
                p.ctx.fault('sql-row-' + f[2])
                if f[2] == 'crash':
                    p.crash()
                raise sqlite3.OperationalError('database or disk is full')
            yield row

    def executescript(self, script):
        p = self.connection.sim
        f = p.before('executescript')
        r = super().executescript(script)
        p.after(f)
        return r


class SimConnection(sqlite3.Connection):
    sim = None

    def cursor(self, factory=SimCursor):
        if self.sim.dead:
            raise SimCrash('dead')
        return super().cursor(factory)

    def execute(self, *a):
        return self.cursor().execute(*a)

    def executemany(self, *a):
        return self.cursor().executemany(*a)

    def executescript(self, *a):
        return self.cursor().executescript(*a)

    def commit(self):
        f = self.sim.before('commit')
        super().commit()
        self.sim.after(f)

    def rollback(self):
        if self.sim.dead:
            raise SimCrash('dead')
        super().rollback()

    def __enter__(self):
        return self

    def __exit__(self, t, v, tb):
        if t is None:
            try:
                self.commit()
            except Exception:      # as CPython's own context manager does
                self.rollback()
                raise
        else:
            self.rollback()
        return False


def connect(path, plan, timeout=0.0):
    con = sqlite3.connect(path, timeout=timeout, factory=SimConnection)
    con.sim = plan
    return con


def scratch_dir():
    import tempfile
    for base in ('/dev/shm', None):
        try:
            return tempfile.mkdtemp(prefix='nempysim-', dir=base)
        except OSError:
            continue
    raise HarnessError('no scratch directory')


def rm_scratch(path):
    if not os.path.basename(path).startswith('nempysim-'):
        raise HarnessError('refusing to remove %r' % path)
    shutil.rmtree(path, ignore_errors=True)
