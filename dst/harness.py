"""Run engine: fork-per-run simulation, seeded search, minimisation, replay, evidence."""
import ctypes
import hashlib
import json
import os
import random
import select
import shutil
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
_now = time.monotonic          # bound before the seams replace the module attributes
_sleep = time.sleep

CHILD_WALL = 150.0             # a run takes milliseconds to a few seconds; beyond this it is stuck outside the simulator


class Violation(Exception):
    def __init__(self, kind, msg):
        super().__init__(f'{kind}: {msg}')
        self.kind = kind
        self.msg = msg


class Ctx:
    """What a property sees of the run."""

    def __init__(self, prop, plan, scratch, kernel, shim):
        self.prop, self.plan, self.scratch, self.k, self.shim = prop, plan, scratch, kernel, shim
        self.probes = {}
        self.faults = {}
        self.states = set()
        self.known_hits = {}
        self._digest = hashlib.sha256()
        self._results = None
        self.events = 0

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def fault(self, name, n=1):
        if n:
            self.faults[name] = self.faults.get(name, 0) + n

    def state(self, obj):
        self.states.add(hashlib.sha256(repr(obj).encode()).hexdigest()[:16])

    def log(self, *obj):
        """Event log: feeds the determinism digest."""
        self.events += 1
        self._digest.update(repr(obj).encode())

    def result(self, obj):
        """Result of the run proper: has to be the same in every interpreter, whatever its hash seed."""
        self._results = hashlib.sha256(((self._results or '') + repr(obj)).encode()).hexdigest()[:24]
        self.log(obj)

    def fail(self, kind, msg):
        raise Violation(kind, msg)

    def known(self, finding, msg):
        """A violation that the known-findings file lists (the caller established it is exactly that one)."""
        if finding not in KNOWN:
            raise Violation('unlisted-finding', f'{finding}: {msg}')
        self.known_hits[finding] = msg

    def path(self, *p):
        return os.path.join(self.scratch, *p)

    def fork(self, fn):
        """Runs fn in a simulated process of its own.  Returns ('ok', value) or ('crash', None); a violation found by
        the process is raised here.  A process that crashed leaves behind what it had written, nothing else."""
        from . import seams
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                self.probes, self.faults = {}, {}
                seams.STATS.clear()
                out = {}
                try:
                    out['value'] = fn()
                except Violation as v:
                    out['violation'] = [v.kind, v.msg]
                except BaseException as e:
                    out['violation'] = ['exception', f'{type(e).__name__}: {e}\n{_trim_tb(e)}']
                if self.shim.lib is not None:
                    self.shim.disarm()
                out.update(probes=self.probes, faults=self.faults, stats=dict(seams.STATS), steps=self.k.steps,
                           sig=self.k.signature, threads=self.k.max_threads, now=self.k.now, switches=self.k.switches)
                data = json.dumps(out).encode()
                while data:
                    n = os.write(w, data)
                    data = data[n:]
                os._exit(0)
            except BaseException:
                os._exit(9)
        os.close(w)
        buf = []
        while True:
            c = os.read(r, 1 << 16)
            if not c:
                break
            buf.append(c)
        os.close(r)
        _, st = os.waitpid(pid, 0)
        if os.WIFEXITED(st) and os.WEXITSTATUS(st) == CRASH_EXIT:
            self.fault('process_crash')
            return 'crash', None
        if st != 0:
            raise RuntimeError(f'simulated process ended with wait status {st}')
        out = json.loads(b''.join(buf))
        for k, v in out['probes'].items():
            self.probe(k, v)
        for k, v in out['faults'].items():
            self.fault(k, v)
        for k, v in out['stats'].items():
            seams.STATS[k] = seams.STATS.get(k, 0) + v
        self.k.steps = max(self.k.steps, out['steps'])
        self.k.signature = out['sig']
        self.k.max_threads = max(self.k.max_threads, out['threads'])
        self.k.now = max(self.k.now, out['now'])
        self.k.switches = out['switches']
        if 'violation' in out:
            raise Violation(*out['violation'])
        return 'ok', out['value']


    def processes(self, fns, seed, style='mixed', crash=None):
        """Runs simulated processes side by side.  One at a time makes progress; the seed decides for how many file system
        operations.  crash: {process: number of turns after which it crashes}.  Returns [(status, value)]."""
        import mmap
        rng = random.Random(f'processes:{seed}')
        clock = mmap.mmap(-1, 8)
        ends = [(os.pipe(), os.pipe()) for _ in fns]
        pids = []
        for j, fn in enumerate(fns):
            pid = os.fork()
            if pid == 0:
                self._process(j, fn, ends, clock)
            pids.append(pid)
        for (r1, _), (_, w2) in ends:
            os.close(r1)
            os.close(w2)
        alive, turns, trace, out = set(range(len(fns))), [0] * len(fns), [], [None] * len(fns)

        def settle(j):
            if os.read(ends[j][1][0], 1) == b'p':
                return
            alive.discard(j)
            _, st = os.waitpid(pids[j], 0)
            pids[j] = None
            if os.WIFEXITED(st) and os.WEXITSTATUS(st) == CRASH_EXIT:
                out[j] = ('crash', None)
                self.fault('process_crash')
            elif st != 0:
                raise RuntimeError(f'simulated process ended with wait status {st}')

        for j in range(len(fns)):
            settle(j)
        cur = None
        while alive:
            if cur not in alive or rng.random() < 0.7 or style == 'fine':
                cur = rng.choice(sorted(alive))
            n = {'fine': rng.choice([1, 1, 2, 3]), 'coarse': int(10 ** rng.uniform(0.5, 3.5)),
                 'mixed': int(10 ** rng.uniform(0, 2.5))}[style]
            turns[cur] += 1
            if crash and crash.get(str(cur)) == turns[cur]:
                n = -1
            trace.append([cur, n])
            os.write(ends[cur][0][1], int(n).to_bytes(4, 'little', signed=True))
            settle(cur)
        self.probe('process_switches', len(trace))
        self.log('turns', trace)
        self.k.signature = int(hashlib.sha256(repr(trace).encode()).hexdigest()[:12], 16)
        self.k.switches += len(trace)
        bad = None
        for j in range(len(fns)):
            os.close(ends[j][0][1])
            os.close(ends[j][1][0])
            if out[j] is None:
                with open(self.path(f'.out{j}')) as f:
                    res = json.load(f)
                os.remove(self.path(f'.out{j}'))
                out[j] = self._absorb(res) or ('ok', res.get('value'))
                if out[j][0] == 'violation' and bad is None:
                    bad = out[j][1]
        clock.close()
        if bad:
            raise Violation(bad[0], f'{bad[1]} [turns {str(trace)[:300]}]')
        return out

    def _process(self, j, fn, ends, clock):
        from . import seams
        try:
            for k, ((r1, w1), (r2, w2)) in enumerate(ends):
                for fd in ((w1, r2) if k == j else (r1, w1, r2, w2)):
                    os.close(fd)
            self.probes, self.faults = {}, {}
            seams.STATS.clear()

            def stamp():
                n = int.from_bytes(clock[:8], 'little') + 1
                clock[:8] = n.to_bytes(8, 'little')
                return n
            out = {}
            self.shim.arm(self.scratch)
            self.shim.lib.dst_turns(ends[j][0][0], ends[j][1][1])
            try:
                out['value'] = fn(stamp)
            except Violation as v:
                out['violation'] = [v.kind, f'process {j}: {v.msg}']
            except BaseException as e:
                out['violation'] = ['exception', f'process {j}: {type(e).__name__}: {e}\n{_trim_tb(e)}']
            self.shim.lib.dst_turns(-1, -1)
            self.shim.disarm()
            out.update(self._report())
            with open(self.path(f'.out{j}'), 'w') as f:
                json.dump(out, f)
            os._exit(0)
        except BaseException:
            os._exit(9)

    def _report(self):
        from . import seams
        return dict(probes=self.probes, faults=self.faults, stats=dict(seams.STATS), steps=self.k.steps,
                    sig=self.k.signature, threads=self.k.max_threads, now=self.k.now, switches=self.k.switches)

    def _absorb(self, out):
        from . import seams
        for k, v in out['probes'].items():
            self.probe(k, v)
        for k, v in out['faults'].items():
            self.fault(k, v)
        for k, v in out['stats'].items():
            seams.STATS[k] = seams.STATS.get(k, 0) + v
        self.k.steps = max(self.k.steps, out['steps'])
        self.k.max_threads = max(self.k.max_threads, out['threads'])
        self.k.now = max(self.k.now, out['now'])
        return ('violation', out['violation']) if 'violation' in out else None


KNOWN = {}


def load_known(prop_id):
    path = os.path.join(VERIF, 'known_findings.json')
    KNOWN.clear()
    if os.path.exists(path):
        for f in json.load(open(path)).get('findings', []):
            if f.get('property') == prop_id and f.get('status') == 'open':
                KNOWN[f['id']] = f


# ------------------------------------------------------------------------------------------------------------ shim
class Shim:
    def __init__(self):
        path = os.environ.get('DST_SHIM')
        self.lib = None
        if path and os.path.exists(path):
            lib = ctypes.CDLL(path)
            lib.dst_arm.argtypes = [ctypes.c_char_p, ctypes.c_long, ctypes.c_int, ctypes.c_long, ctypes.c_int,
                                    ctypes.c_int, ctypes.c_long]
            lib.dst_count.restype = ctypes.c_long
            lib.dst_fired_fail.restype = ctypes.c_long
            lib.dst_fired_short.restype = ctypes.c_long
            lib.dst_log.restype = ctypes.c_char_p
            lib.dst_arm_read.argtypes = [ctypes.c_char_p, ctypes.c_long, ctypes.c_int, ctypes.c_int, ctypes.c_long]
            lib.dst_reads.restype = lib.dst_fired_read.restype = lib.dst_fired_short_read.restype = ctypes.c_long
            self.lib = lib

    def arm(self, prefix, crash_at=-1, crash_mode=0, fail_at=-1, errno=0, sticky=0, short=0):
        self.lib.dst_arm(prefix.encode(), crash_at, crash_mode, fail_at, errno, sticky, short)

    def disarm(self):
        self.lib.dst_disarm()

    def arm_read(self, prefix='', fail_at=-1, errno=0, sticky=0, short=0):
        """Faults of reads from files below the prefix ('': none)."""
        self.lib.dst_arm_read(prefix.encode(), fail_at, errno, sticky, short)

    def reads(self):
        return self.lib.dst_reads(), self.lib.dst_fired_read(), self.lib.dst_fired_short_read()

    def count(self):
        return self.lib.dst_count()

    def fired(self):
        return self.lib.dst_fired_fail()

    def fired_short(self):
        return self.lib.dst_fired_short()

    def log(self):
        return self.lib.dst_log().decode().split()


CRASH_EXIT = 77


# ------------------------------------------------------------------------------------------------------------ one run
def _silence():
    dn = os.open('/dev/null', os.O_WRONLY)
    os.dup2(dn, 1)
    os.dup2(dn, 2)
    os.close(dn)


def _trim_tb(e):
    return ''.join(traceback.format_exception(type(e), e, e.__traceback__))[-3500:]


def _in_child(prop, plan, schedule, scratch, wfd):
    from . import kernel as K, seams
    _silence()
    os.makedirs(scratch, exist_ok=True)
    data = os.path.join(scratch, 'data')
    os.makedirs(data, exist_ok=True)
    os.environ['DATA_FOLDER'] = data
    os.chdir(scratch)
    sc = plan.get('sched', {})
    seams.reset_run(int(sc.get('ambient', sc.get('seed', 0))))
    k = K.Kernel(seed=sc.get('seed', 0), rate=sc.get('rate', 0.0), schedule=schedule,
                 max_steps=sc.get('max_steps', 6_000_000), max_vtime=sc.get('max_vtime', 7200.0),
                 hot=sc.get('hot', 0.0), park=sc.get('park', 0.0), focus=sc.get('focus', 0))
    K.set_kernel(k)
    ctx = Ctx(prop, plan, scratch, k, SHIM)
    res = {'status': 'ok'}
    k.start_main()
    try:
        prop.execute(ctx, plan)
    except Violation as v:
        res = {'status': 'violation', 'kind': v.kind, 'msg': v.msg}
    except K.SimAbort as a:
        res = {'status': 'violation', 'kind': 'no-termination', 'msg': str(a)}
    except BaseException as e:
        res = {'status': 'violation', 'kind': 'exception',
               'msg': f'{type(e).__name__}: {e}\n{_trim_tb(e)}'}
    k.stop()
    stats = dict(seams.STATS)
    for s, v in list(stats.items()):
        if s.startswith('fault_'):
            ctx.fault(s[6:], v)
    res.update(steps=k.steps, vtime=round(k.now - k.t0, 3), switches=k.switches, threads=k.max_threads,
               sig=k.signature, decisions=k.decisions if len(k.decisions) <= 20000 else k.decisions[:20000],
               stats=stats, probes=ctx.probes, faults=ctx.faults, states=sorted(ctx.states)[:500],
               known=ctx.known_hits, events=ctx.events)
    ctx._digest.update(repr((k.steps, k.signature, res['vtime'], res['status'], res.get('kind'))).encode())
    res['digest'] = ctx._digest.hexdigest()[:24]
    res['results'] = ctx._results
    data = json.dumps(res, default=str).encode()
    while data:
        n = os.write(wfd, data[:65536])
        data = data[n:]


def run_once(prop, plan, schedule=None, scratch=None, wall=CHILD_WALL):
    """Runs one simulation in a forked child.  Returns the result dict."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            os.setpgid(0, 0)
            _in_child(prop, plan, schedule, scratch, w)
        except BaseException:
            try:
                os.write(w, json.dumps({'status': 'harness_error', 'msg': traceback.format_exc()[-3000:]}).encode())
            except Exception:
                pass
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    buf = []
    deadline = _now() + wall
    timed_out = False
    while True:
        left = deadline - _now()
        if left <= 0:
            timed_out = True
            break
        ready, _, _ = select.select([r], [], [], min(left, 5.0))
        if not ready:
            continue
        chunk = os.read(r, 1 << 16)
        if not chunk:
            break
        buf.append(chunk)
    os.close(r)
    if timed_out:
        try:
            os.killpg(pid, signal.SIGKILL)
        except OSError:
            try:
                os.kill(pid, signal.SIGKILL)
            except OSError:
                pass
    _, st = os.waitpid(pid, 0)
    try:
        os.killpg(pid, signal.SIGKILL)   # stray grandchildren
    except OSError:
        pass
    if scratch:
        shutil.rmtree(scratch, ignore_errors=True)
    if timed_out:
        return {'status': 'timeout', 'msg': f'run did not finish within {wall:.0f} s of real time'}
    try:
        return json.loads(b''.join(buf))
    except Exception:
        return {'status': 'died', 'msg': f'child ended with wait status {st}'}


SHIM = None


# ------------------------------------------------------------------------------------------------------------ bootstrap
def bootstrap(need=('dataset',)):
    """Heavy imports, then seams, then DRecPy from /repo's working tree, then byte-code yield points."""
    global SHIM
    import warnings
    warnings.filterwarnings('ignore')
    t0 = _now()
    import numpy, pandas, scipy.sparse, tqdm, sklearn, joblib          # noqa
    import pandas.io.parsers                                            # noqa
    import multiprocessing.pool, multiprocessing.dummy, concurrent.futures  # noqa
    import matplotlib                                                   # noqa
    matplotlib.use('Agg')
    import matplotlib.pyplot                                            # noqa
    import tensorflow as tf                                             # noqa
    import requests, zipfile                                            # noqa
    tf.keras.optimizers                                                 # noqa
    tf.get_logger().setLevel('ERROR')
    # lazily imported modules that the code under test reaches
    import sklearn.metrics, sklearn.metrics.pairwise                    # noqa
    import scipy.sparse.linalg                                          # noqa
    sys.pycache_prefix = os.path.join(os.environ['DST_SCRATCH'], 'pyc')
    from . import seams
    sys.path.insert(0, seams.REPO_ROOT)
    seams.install_early()
    import DRecPy, DRecPy.Dataset, DRecPy.Sampler, DRecPy.Recommender   # noqa
    import DRecPy.Recommender.Baseline, DRecPy.Recommender.EarlyStopping  # noqa
    import DRecPy.Evaluation, DRecPy.Evaluation.Splits, DRecPy.Evaluation.Processes, DRecPy.Evaluation.Metrics  # noqa
    assert os.path.abspath(DRecPy.__file__) == seams.REPO + '/__init__.py', DRecPy.__file__
    import logging
    logging.disable(logging.CRITICAL)
    n = seams.instrument_repo()
    import gc
    gc.collect()
    gc.freeze()
    gc.disable()
    SHIM = Shim()
    return {'import_s': round(_now() - t0, 1), 'code_objects': n}


# ------------------------------------------------------------------------------------------------------------ search
def make_plan(prop, seed, i, tier):
    rng = random.Random(f'{seed}:{prop.ID}:{i}')
    plan = prop.gen(rng, tier, i)
    sched = plan.setdefault('sched', {})
    sched.setdefault('seed', rng.getrandbits(48))
    sched.setdefault('ambient', rng.getrandbits(30))
    sched.setdefault('rate', 0.0)
    plan['run'] = i
    return json.loads(json.dumps(plan))   # exactly what a replay file would hold


def worker_loop(prop, seed, tier, ids, base, wid, out, wall_end):
    for i in ids:
        if _now() > wall_end:
            break
        plan = make_plan(prop, seed, i, tier)
        res = run_once(prop, plan, scratch=os.path.join(base, f'w{wid}-{i}'))
        if res['status'] in ('died', 'harness_error'):
            res2 = run_once(prop, plan, scratch=os.path.join(base, f'w{wid}-{i}b'))
            res2['retried'] = res['msg'][-300:]
            res = res2
        res['run'] = i
        if res['status'] == 'ok':
            res.pop('decisions', None)
        line = (json.dumps(res) + '\n').encode()
        while line:
            n = os.write(out, line)
            line = line[n:]


def search(prop, seed, tier, n_runs, wall, base, workers=8, first=0, on_result=None, stop_on_violation=True):
    wall_end = _now() + wall
    ids = list(range(first, first + n_runs))
    pipes, pids = {}, []
    for wid in range(workers):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.setpgid(0, 0)
                os.close(r)
                worker_loop(prop, seed, tier, ids[wid::workers], base, wid, w, wall_end)
            except BaseException:
                try:
                    os.write(w, (json.dumps({'status': 'harness_error', 'run': -1,
                                             'msg': traceback.format_exc()[-2000:]}) + '\n').encode())
                except Exception:
                    pass
            finally:
                os._exit(0)
        os.close(w)
        pipes[r] = b''
        pids.append(pid)
    results, bad = [], []
    open_fds = set(pipes)
    while open_fds:
        ready, _, _ = select.select(list(open_fds), [], [], 5.0)
        for fd in ready:
            chunk = os.read(fd, 1 << 16)
            if not chunk:
                open_fds.discard(fd)
                os.close(fd)
                continue
            pipes[fd] += chunk
            while b'\n' in pipes[fd]:
                line, pipes[fd] = pipes[fd].split(b'\n', 1)
                res = json.loads(line)
                results.append(res)
                if on_result:
                    on_result(res)
                if res['status'] != 'ok':
                    bad.append(res)
        if bad and stop_on_violation and any(b['status'] == 'violation' for b in bad):
            break
    for pid in pids:
        try:
            os.kill(pid, signal.SIGKILL)
        except OSError:
            pass
    for pid in pids:
        try:
            os.waitpid(pid, 0)
        except OSError:
            pass
    return results, bad


# ------------------------------------------------------------------------------------------------------------ shrink
def minimise(prop, plan, res, base, wall=60.0):
    """Greedy: smaller plans first (each tried with the seed's own schedule), then ddmin over the preemptions."""
    end = _now() + wall
    kind = res['kind']
    tries = [0]

    def attempt(p, schedule=None):
        tries[0] += 1
        return run_once(prop, p, schedule, scratch=os.path.join(base, f'min-{tries[0]}'), wall=60)

    def same(r):
        return r.get('status') == 'violation' and r.get('kind') == kind

    best_plan, best_res = plan, res
    progress = True
    while progress and _now() < end:
        progress = False
        for cand in prop.shrink(best_plan):
            if _now() > end:
                break
            cand = json.loads(json.dumps(cand))
            variants = [cand]
            if best_res.get('threads', 1) > 1:
                for extra in range(3):
                    v = json.loads(json.dumps(cand))
                    v['sched']['seed'] = v['sched']['seed'] + 7919 * (extra + 1)
                    variants.append(v)
            for v in variants:
                r = attempt(v)
                if same(r):
                    best_plan, best_res, progress = v, r, True
                    break
            if progress:
                break
    # schedule
    dec = [tuple(d) for d in best_res.get('decisions', [])]
    r = attempt(best_plan, dec)
    if same(r):
        best_res = r
        if best_res.get('threads', 1) > 1:
            n = 2
            while len(dec) >= 1 and _now() < end:
                size = max(1, len(dec) // n)
                reduced = False
                for s in range(0, len(dec), size):
                    if _now() > end:
                        break
                    cand = dec[:s] + dec[s + size:]
                    r = attempt(best_plan, cand)
                    if same(r):
                        dec, best_res, reduced = cand, r, True
                        n = max(2, n - 1)
                        break
                if not reduced:
                    if size == 1:
                        break
                    n = min(len(dec), n * 2)
        return best_plan, dec, best_res, tries[0]
    return best_plan, None, best_res, tries[0]
