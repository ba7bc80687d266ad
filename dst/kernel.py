"""Deterministic scheduler.

Every simulated thread is a real OS thread that owns a gate; exactly one gate is open at any time.  The kernel decides,
from one PRNG (or from a recorded schedule), at which step the running thread is preempted and who runs next, and owns
the only clock the code under test can see.  A "step" is a yield point: one byte-code instruction of the code under test
(through sys.monitoring), a lock operation, a database statement, a sleep, a pool operation.

A schedule is a map {step number: thread id}: the thread that was given the baton at that step.  Replaying with the same
map reproduces the execution; steps without an entry fall back to "keep running / lowest runnable id".
"""
import _thread
import math
import random
import zlib

_allocate = _thread.allocate_lock
_get_ident = _thread.get_ident


class SimAbort(BaseException):
    """Raised inside the main simulated thread when the run has to end (deadlock, no progress)."""


class SimDeadlock(SimAbort):
    pass


class SimNoProgress(SimAbort):
    pass


class SimThread:
    __slots__ = ('tid', 'gate', 'state', 'wake', 'token', 'name', 'ident', 'exc')

    def __init__(self, tid, name):
        self.tid = tid
        self.name = name
        self.gate = _allocate()
        self.gate.acquire()
        self.state = 'ready'     # ready | blocked | done
        self.wake = None         # virtual wake-up time when sleeping
        self.token = None        # what it is blocked on
        self.ident = None
        self.exc = None


class Kernel:
    def __init__(self, seed=0, rate=0.05, schedule=None, max_steps=4_000_000, max_vtime=7200.0, start_time=1.6e9,
                 hot=0.0, park=0.0, focus=0):
        self.rng = random.Random(f'sched:{seed}')
        self.rate = rate
        self.hot = hot if schedule is None else 0.0   # chance of a preemption around writes of shared state
        self.park, self.quiet_until, self.focus, self.salt = park, 0, focus, seed
        self.schedule = None if schedule is None else {int(s): int(t) for s, t in schedule}
        self.max_steps = max_steps
        self.max_vtime = max_vtime
        self.t0 = start_time
        self.now = start_time
        self.steps = 0
        self.next_preempt = None
        self.threads = []
        self.by_ident = {}
        self.current = None
        self.abort = None
        self.decisions = []          # (step, tid) really taken
        self.switches = 0
        self.ready = 0               # number of ready threads, incl. current
        self.active = False
        self.max_threads = 1
        self.on_step = None
        self.signature = 0           # rolling hash of (switch position, from, to): interleaving identity

    # ------------------------------------------------------------------ lifecycle
    def start_main(self):
        t = SimThread(0, 'main')
        t.ident = _get_ident()
        self.by_ident[t.ident] = t
        self.threads.append(t)
        self.current = t
        self.active = True
        self._arm()
        return t

    def stop(self):
        self.active = False

    def me(self):
        return self.by_ident.get(_get_ident())

    def in_sim(self):
        return self.active and _get_ident() in self.by_ident

    def _arm(self):
        if self.schedule is not None:
            nxt = [s for s in self.schedule if s > self.steps]
            self.next_preempt = min(nxt) if nxt else 1 << 62
        elif self.rate < 0:
            # log-uniform gap: a thread stopped inside a short window while others run for long
            self.next_preempt = self.steps + int(math.exp(self.rng.random() * math.log(-self.rate)))
        elif self.rate == 0:
            self.next_preempt = 1 << 62
        else:
            # geometric gap
            gap = 1
            r = self.rng.random()
            gap += int(math.log(max(r, 1e-12)) / math.log(1 - self.rate)) if self.rate < 1 else 0
            self.next_preempt = self.steps + gap

    def hot_due(self, site):
        """A place next to a write of shared state: is it a preemption point this time?  With `focus`, only one place in
        `focus` is ever one in this run, but then most of the times, so that threads meet in few selected windows.  No site: a rare one, always considered."""
        if len(self.threads) <= 1 or (self.steps < self.quiet_until and site):
            return False
        if site and self.focus and zlib.crc32(f'{site}:{self.salt}'.encode()) % self.focus:
            return False
        if self.rng.random() < (self.hot if site else max(self.hot, 0.3)):
            self.next_preempt = self.steps
            # often leave the others alone for a while, so that they get far past the stopped thread
            self.quiet_until = self.steps + int(math.exp(self.rng.random() * 10)) if self.rng.random() < self.park else 0
            return True
        return False

    def spawn(self, fn, name):
        t = SimThread(len(self.threads), name)
        self.threads.append(t)
        alive = sum(1 for x in self.threads if x.state != 'done')
        self.max_threads = max(self.max_threads, alive)

        def boot():
            t.ident = _get_ident()
            t.gate.acquire()
            self.by_ident[t.ident] = t
            try:
                fn()
            except SimAbort:
                pass
            except BaseException as e:   # a thread that dies; the spawner decides what that means
                t.exc = e
            finally:
                self.by_ident.pop(t.ident, None)
                t.state = 'done'
                self.wake_all(t)
                self._dispatch_from_dead(t)

        _thread.start_new_thread(boot, ())
        return t

    # ------------------------------------------------------------------ core
    def point(self, weight=1):
        """A yield point.  Cheap unless a preemption is due."""
        self.steps += 1
        if self.steps < self.next_preempt and self.steps < self.max_steps and self.abort is None:
            return
        self._slow_point()

    def _slow_point(self):
        me = self.me()
        if me is None or not self.active:
            return
        if self.abort is not None:
            if me.tid == 0:
                raise self.abort
            self._park_forever(me)
        if self.steps >= self.max_steps:
            self._set_abort(SimNoProgress(f'no progress: {self.steps} simulated steps without finishing'), me)
        if self.steps >= self.next_preempt:
            self._preempt(me)

    def _runnable(self):
        return [t for t in self.threads if t.state == 'ready' and t.wake is None]

    def _preempt(self, me):
        cands = [t for t in self._runnable() if t is not me]
        step = self.steps
        target = None
        if cands:
            if self.schedule is not None:
                tid = self.schedule.get(step)
                for t in cands:
                    if t.tid == tid:
                        target = t
            else:
                target = cands[self.rng.randrange(len(cands))]
        self._arm()
        if target is not None:
            self._switch(me, target)

    def _note(self, me, target):
        self.decisions.append((self.steps, target.tid))
        self.switches += 1
        self.signature = hash((self.signature, self.steps, me.tid, target.tid)) & 0xffffffffffffffff

    def _switch(self, me, target):
        self._note(me, target)
        self.current = target
        target.gate.release()
        me.gate.acquire()
        if self.abort is not None:
            if me.tid == 0:
                raise self.abort
            self._park_forever(me)

    def _park_forever(self, me):
        me.state = 'done'
        main = self.threads[0]
        if self.current is me:
            self.current = main
            main.gate.release()
        while True:
            me.gate.acquire()

    def _set_abort(self, exc, me):
        if self.abort is None:
            self.abort = exc
        if me is not None and me.tid == 0:
            raise self.abort
        if me is not None:
            self._park_forever(me)

    def _pick_next(self, me):
        """Called when `me` cannot run.  Returns the next thread, advancing virtual time if needed."""
        while True:
            cands = [t for t in self._runnable() if t is not me]
            if me is not None and me.state == 'ready' and me.wake is None:
                cands.append(me)
            if cands:
                if len(cands) == 1:
                    return cands[0]
                if self.schedule is not None:
                    tid = self.schedule.get(self.steps)
                    for t in cands:
                        if t.tid == tid:
                            return t
                    return min(cands, key=lambda t: t.tid)
                cands.sort(key=lambda t: t.tid)
                return cands[self.rng.randrange(len(cands))]
            sleepers = [t for t in self.threads if t.state != 'done' and t.wake is not None]
            if not sleepers:
                return None
            first = min(t.wake for t in sleepers)
            self.now = max(self.now, first)
            if self.now - self.t0 > self.max_vtime:
                return 'vtime'
            for t in sleepers:
                if t.wake <= self.now:
                    t.wake = None
                    if t.state == 'blocked':
                        t.state = 'ready'   # a timed wait expired

    def _yield_blocked(self, me):
        """Give the baton away because `me` is not runnable; returns when it is scheduled again."""
        self.steps += 1
        nxt = self._pick_next(me)
        if nxt is None:
            waits = ', '.join(f'{t.name}' for t in self.threads if t.state == 'blocked')
            self._set_abort(SimDeadlock(f'deadlock: every live thread waits ({waits})'), me)
        if nxt == 'vtime':
            self._set_abort(SimNoProgress(f'no progress within {self.max_vtime:.0f} simulated seconds'), me)
        if nxt is me:
            return
        self._switch(me, nxt)

    def _dispatch_from_dead(self, me):
        if self.abort is not None:
            if self.current is me:
                self.current = self.threads[0]
                self.threads[0].gate.release()
            return
        self.steps += 1
        nxt = self._pick_next(None)
        if nxt is None or nxt == 'vtime':
            self.abort = SimDeadlock('deadlock: no runnable thread left') if nxt is None else \
                SimNoProgress(f'no progress within {self.max_vtime:.0f} simulated seconds')
            nxt = self.threads[0]
        self._note(me, nxt)
        self.current = nxt
        nxt.gate.release()

    # ------------------------------------------------------------------ primitives
    def block(self, token, timeout=None):
        """Wait until wake(token) (or the timeout in virtual seconds).  Returns False on timeout."""
        me = self.me()
        me.state = 'blocked'
        me.token = token
        if timeout is not None and timeout >= 0:
            me.wake = self.now + timeout
            deadline = me.wake
        self._yield_blocked(me)
        timed_out = timeout is not None and timeout >= 0 and self.now >= deadline and me.token is not None
        me.token = None
        me.wake = None
        me.state = 'ready'
        return not timed_out

    def wake_all(self, token):
        for t in self.threads:
            if t.state == 'blocked' and t.token is token:
                t.state = 'ready'
                t.wake = None
                t.token = None

    def sleep(self, seconds):
        me = self.me()
        me.wake = self.now + max(0.0, float(seconds))
        self._yield_blocked(me)
        me.wake = None

    def others_alive(self):
        return any(t.state != 'done' for t in self.threads if t is not self.me())


KERNEL = None


def get():
    return KERNEL


def set_kernel(k):
    global KERNEL
    KERNEL = k
