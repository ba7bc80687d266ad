"""Seams: threads, locks, pools, clocks, database statements, network, allocation, plotting.

install_early() must run after the heavy third-party imports and before DRecPy is imported: DRecPy binds several of the
patched names at import time.  Outside a running simulation every replacement behaves like the original.
"""
import _thread
import builtins
import dis
import functools
import gc
import os
import queue
import random
import sqlite3
import sys
import threading
import time as _time

from . import kernel as K

REPO_ROOT = os.environ.get('DST_REPO', '/repo')      # another tree only while developing the checks
REPO = REPO_ROOT + '/DRecPy'

_real_allocate = _thread.allocate_lock
_real_sleep = _time.sleep
_real_time = _time.time
_real_monotonic = _time.monotonic
_real_perf = _time.perf_counter
_real_start_new_thread = _thread.start_new_thread
_real_sqlite_connect = sqlite3.connect


def _k():
    k = K.KERNEL
    return k if k is not None and k.active and k.in_sim() else None


# ---------------------------------------------------------------------------------------------------------- locks
class SimLock:
    def __init__(self):
        self._real = _real_allocate()

    def acquire(self, blocking=True, timeout=-1):
        k = _k()
        if k is None:
            return self._real.acquire(blocking, timeout)
        k.point()
        deadline = None if timeout is None or timeout < 0 else k.now + timeout
        while True:
            if self._real.acquire(False):
                return True
            if not blocking:
                return False
            left = None if deadline is None else deadline - k.now
            if left is not None and left <= 0:
                return False
            STATS['lock_waits'] = STATS.get('lock_waits', 0) + 1
            k.block(self, left)

    def release(self):
        self._real.release()
        k = _k()
        if k is not None:
            k.wake_all(self)
            k.point()

    def locked(self):
        return self._real.locked()

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self._real = _real_allocate()


class SimRLock:
    def __init__(self):
        self._block = SimLock()
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        if self._owner == me:
            self._count += 1
            return True
        if self._block.acquire(blocking, timeout):
            self._owner = me
            self._count = 1
            return True
        return False

    __enter__ = acquire

    def release(self):
        if self._owner != _thread.get_ident():
            raise RuntimeError('cannot release un-acquired lock')
        self._count -= 1
        if not self._count:
            self._owner = None
            self._block.release()

    def __exit__(self, *a):
        self.release()

    def _release_save(self):
        count, self._count, self._owner = self._count, 0, None
        self._block.release()
        return count

    def _acquire_restore(self, count):
        self._block.acquire()
        self._count = count
        self._owner = _thread.get_ident()

    def _is_owned(self):
        return self._owner == _thread.get_ident()

    def _at_fork_reinit(self):
        self._block._at_fork_reinit()
        self._owner = None
        self._count = 0


# ---------------------------------------------------------------------------------------------------------- threads
def _sim_start_new_thread(fn, args, kwargs=None):
    k = _k()
    if k is None:
        return _real_start_new_thread(fn, args, kwargs or {})
    STATS['threads'] = STATS.get('threads', 0) + 1
    t = k.spawn(lambda: fn(*args, **(kwargs or {})), 'thread')
    return t.tid + 1


_orig_thread_start = threading.Thread.start
_orig_thread_join = threading.Thread.join
_orig_thread_alive = threading.Thread.is_alive


def _thread_start(self):
    k = _k()
    if k is None:
        return _orig_thread_start(self)
    if getattr(self, '_dst', None) is not None:
        raise RuntimeError('threads can only be started once')
    STATS['threads'] = STATS.get('threads', 0) + 1
    self._dst = k.spawn(self.run, self.name)
    self._started._flag = True
    k.point()


def _thread_join(self, timeout=None):
    k = _k()
    t = getattr(self, '_dst', None)
    if k is None or t is None:
        return _orig_thread_join(self, timeout)
    deadline = None if timeout is None else k.now + timeout
    while t.state != 'done':
        left = None if deadline is None else deadline - k.now
        if left is not None and left <= 0:
            return
        k.block(t, left)


def _thread_alive(self):
    t = getattr(self, '_dst', None)
    if t is None:
        return _orig_thread_alive(self)
    return t.state != 'done'


# ---------------------------------------------------------------------------------------------------------- pool
class SimResult:
    def __init__(self, pool, callback=None, error_callback=None):
        self._pool, self._done, self._ok, self._value = pool, False, None, None
        self._cb, self._ecb = callback, error_callback

    def _set(self, ok, value):
        self._ok, self._value, = ok, value
        cb = self._cb if ok else self._ecb
        if cb is not None:
            try:
                cb(value)
            except Exception:
                pass
        self._done = True
        k = _k()
        if k is not None:
            k.wake_all(self)

    def ready(self):
        k = _k()
        if k is not None:
            k.point()
        return self._done

    def successful(self):
        if not self._done:
            raise ValueError(f'{self!r} not ready')
        return self._ok

    def wait(self, timeout=None):
        k = _k()
        deadline = None if timeout is None else k.now + timeout
        while not self._done:
            left = None if deadline is None else deadline - k.now
            if left is not None and left <= 0:
                return
            k.block(self, left)

    def get(self, timeout=None):
        self.wait(timeout)
        if not self._done:
            import multiprocessing
            raise multiprocessing.TimeoutError
        if self._ok:
            return self._value
        raise self._value


class SimThreadPool:
    """Stand-in for multiprocessing.pool.ThreadPool: same API, workers are simulated threads."""

    def __init__(self, processes=None, initializer=None, initargs=()):
        self._k = _k()
        if self._k is None:
            raise RuntimeError('ThreadPool used outside a simulation')
        n = processes or 4
        if n < 1:
            raise ValueError('Number of processes must be at least 1')
        STATS['pools'] = STATS.get('pools', 0) + 1
        self._queue = []
        self._state = 'RUN'
        self._workers = []
        self._init = (initializer, initargs)
        for i in range(n):
            STATS['threads'] = STATS.get('threads', 0) + 1
            self._workers.append(self._k.spawn(self._work, f'worker-{i}'))
        self._k.point()

    def _work(self):
        k = self._k
        if self._init[0] is not None:
            self._init[0](*self._init[1])
        while True:
            while not self._queue:
                if self._state != 'RUN':
                    return
                k.block(self._queue)
            if self._state == 'TERMINATE':
                return
            fn, args, kwds, res = self._queue.pop(0)
            k.point()
            try:
                out = (True, fn(*args, **kwds))
            except Exception as e:
                STATS['task_errors'] = STATS.get('task_errors', 0) + 1
                out = (False, e)
            res._set(*out)
            STATS['tasks'] = STATS.get('tasks', 0) + 1
            k.point()

    def _check(self):
        if self._state != 'RUN':
            raise ValueError('Pool not running')

    def apply_async(self, func, args=(), kwds={}, callback=None, error_callback=None):
        self._check()
        r = SimResult(self, callback, error_callback)
        self._queue.append((func, tuple(args), dict(kwds), r))
        self._k.wake_all(self._queue)
        self._k.point()
        return r

    def apply(self, func, args=(), kwds={}):
        return self.apply_async(func, args, kwds).get()

    def _many(self, func, argss, callback=None, error_callback=None):
        rs = [self.apply_async(func, a) for a in argss]

        class Many(SimResult):
            def _poll(s):
                s._done = all(r._done for r in rs)
                if s._done:
                    bad = [r for r in rs if not r._ok]
                    s._ok = not bad
                    s._value = bad[0]._value if bad else [r._value for r in rs]

            def ready(s):
                s._poll()
                return s._done

            def wait(s, timeout=None):
                for r in rs:
                    r.wait(timeout)
                s._poll()
        return Many(self)

    def map(self, func, iterable, chunksize=None):
        return self._many(func, [(x,) for x in iterable]).get()

    def map_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return self._many(func, [(x,) for x in iterable])

    def starmap(self, func, iterable, chunksize=None):
        return self._many(func, [tuple(x) for x in iterable]).get()

    def starmap_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return self._many(func, [tuple(x) for x in iterable])

    def imap(self, func, iterable, chunksize=1):
        rs = [self.apply_async(func, (x,)) for x in iterable]
        for r in rs:
            yield r.get()

    def imap_unordered(self, func, iterable, chunksize=1):
        rs = [self.apply_async(func, (x,)) for x in iterable]
        while rs:
            done = [r for r in rs if r._done]
            if not done:
                rs[0].wait()
                continue
            rs.remove(done[0])
            yield done[0].get()

    def close(self):
        if self._state == 'RUN':
            self._state = 'CLOSE'
        self._k.wake_all(self._queue)
        self._k.point()

    def terminate(self):
        self._state = 'TERMINATE'
        del self._queue[:]
        self._k.wake_all(self._queue)

    def join(self):
        if self._state == 'RUN':
            raise ValueError('Pool is still running')
        for w in self._workers:
            while w.state != 'done':
                self._k.block(w)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.terminate()
        self.join()


# ---------------------------------------------------------------------------------------------------------- clocks
def _sleep(s):
    k = _k()
    if k is None:
        return _real_sleep(s)
    STATS['sleeps'] = STATS.get('sleeps', 0) + 1
    k.sleep(s)


def _time_time():
    k = _k()
    return _real_time() if k is None else k.now


def _time_mono():
    k = _k()
    return _real_monotonic() if k is None else k.now - k.t0 + 1000.0


# ---------------------------------------------------------------------------------------------------------- sqlite
STATS = {}          # counters of the current run
SQL = {'count': 0, 'faults': {}, 'log': None, 'match': None}
# faults: {statement number: error text}; numbers count statements executed through the seam since arm_sql()

BUSY_TIMEOUT = 5.0  # sqlite3.connect default, kept in virtual seconds


def _sql_gate(what):
    SQL['count'] += 1
    n = SQL['count']
    k = _k()
    if k is not None:
        k.point()
    STATS['sql'] = STATS.get('sql', 0) + 1
    if n in SQL['faults']:
        msg = SQL['faults'][n]
        STATS['fault_sql'] = STATS.get('fault_sql', 0) + 1
        SQL['last_fault'] = what
        raise sqlite3.OperationalError(msg)


def _sql_do(fn, a):
    k = _k()
    deadline = None
    while True:
        try:
            return fn(*a)
        except sqlite3.OperationalError as e:
            if str(e) != 'database is locked':
                raise
            STATS['sql_busy'] = STATS.get('sql_busy', 0) + 1
            if k is None:
                raise
            if deadline is None:
                deadline = k.now + BUSY_TIMEOUT
            if k.now >= deadline:
                STATS['sql_busy_timeout'] = STATS.get('sql_busy_timeout', 0) + 1
                raise
            k.sleep(0.1)


class SimCursor(sqlite3.Cursor):
    def execute(self, *a):
        _sql_gate(a[0] if a else '')
        return _sql_do(super().execute, a)

    def executemany(self, *a):
        _sql_gate(a[0] if a else '')
        return _sql_do(super().executemany, a)

    def fetchone(self):
        k = _k()
        if k is not None:
            k.point()
        return super().fetchone()

    def fetchall(self):
        k = _k()
        if k is not None:
            k.point()
        return super().fetchall()

    def __next__(self):
        k = _k()
        if k is not None:
            k.point()
        return super().__next__()


class SimConnection(sqlite3.Connection):
    def cursor(self, factory=None):
        return super().cursor(factory or SimCursor)

    def commit(self):
        k = _k()
        if k is not None:
            k.point()
        return _sql_do(super().commit, ())


def _connect(*a, **kw):
    if K.KERNEL is None or not K.KERNEL.active:
        return _real_sqlite_connect(*a, **kw)
    kw['timeout'] = 0
    kw.setdefault('factory', SimConnection)
    _sql_gate('CONNECT')
    return _real_sqlite_connect(*a, **kw)


def arm_sql(faults=None):
    """Restart statement numbering; fail the given statements (before they take effect)."""
    SQL['count'] = 0
    SQL['faults'] = dict(faults or {})


# ---------------------------------------------------------------------------------------------------------- memory
MEM = {'armed': {}, 'count': {}}
# armed: {site: set of call numbers that fail}; sites: 'csr' (sparse matrix construction), 'matrix' (of several rows),
# 'trans' (conversion of a whole matrix), 'read_csv'


def mem_gate(site):
    n = MEM['count'].get(site, 0) + 1
    MEM['count'][site] = n
    armed = MEM['armed'].get(site)
    if armed is not None and (armed == 'all' or n in armed):
        STATS['fault_mem_' + site] = STATS.get('fault_mem_' + site, 0) + 1
        raise MemoryError(f'simulated allocation failure ({site} #{n})')


def arm_mem(armed):
    MEM['armed'] = {s: (v if v == 'all' else set(v)) for s, v in armed.items()}
    MEM['count'] = {}


def _caller_is_repo():
    f = sys._getframe(2)
    while f is not None:
        fn = f.f_code.co_filename
        if fn.startswith(REPO):
            return True
        if 'scipy' not in fn and 'pandas' not in fn and '/dst/' not in fn and fn[0] != '<':
            return False
        f = f.f_back
    return False


def _install_mem():
    import scipy.sparse as sp
    import pandas.io.parsers as pp
    for cls_name in ('csr_matrix', 'csc_matrix', 'coo_matrix', 'lil_matrix', 'dok_matrix'):
        cls = getattr(sp, cls_name)
        orig = cls.__init__

        def init(self, arg1, *a, __orig=orig, **kw):
            # only constructions from python data requested by the code under test; scipy-internal ones (which build
            # from existing arrays) are left alone
            if MEM['armed'] and 'csr' in MEM['armed'] and sys._getframe(1).f_code.co_filename.startswith(REPO):
                mem_gate('csr')
            __orig(self, arg1, *a, **kw)
            if MEM['armed'] and 'matrix' in MEM['armed'] and self.shape[0] > 1 \
                    and sys._getframe(1).f_code.co_filename.startswith(REPO):
                mem_gate('matrix')      # several rows do not fit, a single one does
        cls.__init__ = init

    # conversions of a whole matrix (the transposed one is derived from the one just built)
    for cls_name in ('csr_matrix', 'csc_matrix', 'coo_matrix'):
        for name in ('transpose', 'tocsr', 'tocsc', 'copy'):
            cls = getattr(sp, cls_name)
            orig = getattr(cls, name)

            def conv(self, *a, __orig=orig, **kw):
                if MEM['armed'] and 'trans' in MEM['armed'] and min(self.shape) > 1:
                    f = sys._getframe(1)
                    if f.f_code.co_filename.startswith(REPO) or \
                            (f.f_code.co_name == 'T' and f.f_back.f_code.co_filename.startswith(REPO)):
                        mem_gate('trans')
                return __orig(self, *a, **kw)
            setattr(cls, name, conv)

    orig_read = pp.TextFileReader.read

    def read(self, *a, **kw):
        if MEM['armed'] and 'read_csv' in MEM['armed']:
            mem_gate('read_csv')
        return orig_read(self, *a, **kw)
    pp.TextFileReader.read = read


# ---------------------------------------------------------------------------------------------------------- bytecode
TOOL = 3


def _instr(code, offset):
    k = K.KERNEL
    if k is None or not k.active:
        return
    k.steps += 1
    if k.hot and offset in HOT.get(code, ()) and k.hot_due((code.co_qualname, offset)):
        k._slow_point()
        return
    if k.steps < k.next_preempt and k.steps < k.max_steps and k.abort is None:
        return
    k._slow_point()


HOT = {}        # code object -> offsets at which shared state is about to be, or has just been, written
_STORES = {'STORE_ATTR', 'STORE_SUBSCR', 'STORE_GLOBAL', 'STORE_DEREF', 'DELETE_ATTR', 'DELETE_SUBSCR'}
_MUTATORS = {'append', 'extend', 'add', 'remove', 'discard', 'pop', 'clear', 'update', 'insert', 'setdefault'}


def _hot_offsets(code):
    out, after = set(), False
    for ins in dis.get_instructions(code):
        if after:
            out.add(ins.offset)
            after = False
        if ins.opname in _STORES:
            out.add(ins.offset)
            after = True
        elif ins.opname in ('LOAD_ATTR', 'LOAD_METHOD') and ins.argval in _MUTATORS:
            out.add(ins.offset)
    return frozenset(out)


def instrument_repo():
    """Turns every byte-code instruction of DRecPy into a yield point."""
    mon = sys.monitoring
    mon.use_tool_id(TOOL, 'dst')
    mon.register_callback(TOOL, mon.events.INSTRUCTION, _instr)
    seen = set()

    def walk(code):
        if code in seen:
            return
        seen.add(code)
        HOT[code] = _hot_offsets(code)
        mon.set_local_events(TOOL, code, mon.events.INSTRUCTION)
        for c in code.co_consts:
            if hasattr(c, 'co_code'):
                walk(c)

    def functions(obj, depth=0):
        for name, v in list(vars(obj).items()):
            f = v
            if isinstance(f, (staticmethod, classmethod)):
                f = f.__func__
            if isinstance(f, property):
                for g in (f.fget, f.fset, f.fdel):
                    if g is not None and hasattr(g, '__code__') and g.__code__.co_filename.startswith(REPO):
                        walk(g.__code__)
                continue
            while f is not None:
                if hasattr(f, '__code__') and f.__code__.co_filename.startswith(REPO):
                    walk(f.__code__)
                # decorated / closed-over functions
                for cell in (getattr(f, '__closure__', None) or ()):
                    try:
                        c = cell.cell_contents
                    except ValueError:
                        continue
                    if hasattr(c, '__code__') and c.__code__.co_filename.startswith(REPO):
                        walk(c.__code__)
                f = getattr(f, '__wrapped__', None)
            if isinstance(v, type) and v.__module__.startswith('DRecPy') and depth < 3:
                functions(v, depth + 1)

    for name, mod in list(sys.modules.items()):
        if name.startswith('DRecPy') and mod is not None:
            functions(mod)
    return len(seen)


def _shared_rng(fn):
    """The process-wide random generator is state shared by all threads: its calls are preferred preemption points."""
    def call(*a, **kw):
        k = K.KERNEL
        if k is not None and k.in_sim():
            if k.hot and k.hot_due(None):
                k._slow_point()
            else:
                k.point()
        return fn(*a, **kw)
    return functools.wraps(fn)(call)


# ---------------------------------------------------------------------------------------------------------- install
def install_early():
    import multiprocessing.pool
    import multiprocessing.dummy
    import concurrent.futures.thread as cft
    import tqdm
    tqdm.tqdm.monitor_interval = 0

    threading.Lock = SimLock
    threading.RLock = SimRLock
    threading._allocate_lock = SimLock
    threading._PyRLock = SimRLock
    threading._CRLock = None
    threading.Thread.start = _thread_start
    threading.Thread.join = _thread_join
    threading.Thread.is_alive = _thread_alive
    queue.SimpleQueue = queue._PySimpleQueue
    cft._global_shutdown_lock = SimLock()
    multiprocessing.pool.ThreadPool = SimThreadPool
    multiprocessing.dummy.Pool = lambda processes=None, initializer=None, initargs=(): SimThreadPool(
        processes, initializer, initargs)
    _time.sleep = _sleep
    _time.time = _time_time
    _time.monotonic = _time_mono
    _time.perf_counter = _time_mono
    sqlite3.connect = _connect
    sqlite3.dbapi2.connect = _connect
    for name in ('seed', 'random', 'uniform', 'randint', 'randrange', 'choice', 'choices', 'sample', 'shuffle', 'getrandbits'):
        setattr(random, name, _shared_rng(getattr(random, name)))
    import numpy as np
    for name in ('seed', 'rand', 'randint', 'random', 'choice', 'shuffle', 'permutation', 'uniform'):
        setattr(np.random, name, _shared_rng(getattr(np.random, name)))
    _install_mem()


def reset_run(seed):
    """Per-run state: ambient PRNGs, counters, fault plans."""
    import numpy as np
    STATS.clear()
    arm_sql()
    arm_mem({})
    random.seed(f'ambient:{seed}')
    np.random.seed(seed & 0xffffffff)
    gc.collect()
    gc.disable()
