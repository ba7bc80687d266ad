import gc
import json
import os
import sys

from ..base import Prop
from ..harness import Violation
from ..runner import Runner, gen_history, gen_knobs, set_knobs, short

FOREIGN = {'notes.txt': b'mine\n', 'mine.sqlite': b'not a real database', 'tmp_files.backup': b'keep\n',
           'interactions.csv': b'1,2,3\n', 'old.tmp.sqlite': b'x', 'ds/u.csv': b'1,1,1\n'}

LEAKED = []


def restart():
    """What a fresh interpreter does on `import DRecPy.Dataset`."""
    for name in [n for n in sys.modules if n == 'DRecPy.Dataset' or n.startswith('DRecPy.Dataset.')]:
        del sys.modules[name]
    import DRecPy
    if hasattr(DRecPy, 'Dataset'):
        del DRecPy.Dataset
    import DRecPy.Dataset   # noqa


def listing(root):
    out = {}
    for d, _, files in os.walk(root):
        for f in files:
            p = os.path.join(d, f)
            out[os.path.relpath(p, root)] = p
    return out


AFTER = ['values', 'list', 'len', 'select', 'copy', 'drop', 'keep', 'apply', 'ids', 'unique', 'save', 'count', 'close']


class S07(Prop):
    ID = 'S07'
    RUNS = {'quick': 1500, 'thorough': 40000}
    WALL = {'quick': 150.0, 'thorough': 1800.0}
    RULE = ('one evaluation = one sequence of simulated processes sharing a data folder; a distinct case is a distinct '
            'sequence of (history, way of ending, crash point)')
    REAL = ['DRecPy.Dataset (database backend, start-up clean-up)', 'SQLite', 'file system', 'process table']
    STUB = ['crash points and disk errors (disk seam)', 'interpreter start-up (fresh import in a forked process)',
            'garbage-collection timing']
    ASSUMPTIONS = ['process crashes, no power loss', 'the data folder is not shared between machines']

    def gen(self, rng, tier, i):
        procs = []
        for _ in range(rng.choice([1, 2, 3, 4])):
            ops, _, _ = gen_history(rng, rng.choice([1, 4, 8, 14]), ['db'], max_rows=rng.choice([4, 12]), audit_p=0.0,
                                    extra=['close'] * 2)
            out = []
            for op in ops:
                if op['op'] == 'close' and rng.random() < 0.4:
                    op['held'] = rng.random() < 0.7     # the data set that is closed, or another one, is being read
                if op['op'] == 'close' and rng.random() < 0.3:
                    op.update(explicit=True, after=[rng.choice(AFTER) for _ in range(rng.choice([1, 2, 4]))])
                out.append(op)
                if rng.random() < 0.1:
                    out.append({'op': 'badload', 'what': rng.choice(['header', 'missing', 'disk', 'disk']),
                                'n': rng.choice([1, 2, 3, 4])})
            procs.append({'ops': out, 'end': rng.choice(['crash', 'crash', 'exit', 'close', 'drop', 'same_pid']),
                          'frac': rng.random(), 'mode': rng.choice([0, 1, 2]), 'order': rng.getrandbits(16),
                          'crash_in_start': rng.random() < 0.25, 'held': rng.random() < 0.4,
                          'after': [rng.choice(AFTER) for _ in range(3)] if rng.random() < 0.3 else None})
        plan = {'procs': procs, 'knobs': gen_knobs(rng), 'live': None}
        if rng.random() < 0.4:
            ops, _, _ = gen_history(rng, rng.choice([1, 4]), ['db'], max_rows=8, audit_p=0.0, closes=False)
            plan['live'] = {'ops': ops}
        return plan

    def execute(self, ctx, plan):
        self.data = ctx.path('data')
        os.makedirs(os.path.join(self.data, 'ds'))
        for f, c in FOREIGN.items():
            with open(os.path.join(self.data, f), 'wb') as fh:
                fh.write(c)
        live = None
        live_files = set()
        if plan['live']:
            live = self.start_live(ctx, plan)
            live_files = set(listing(self.data)) - set(FOREIGN)
            ctx.probe('live_process')
        hist = []
        for j, p in enumerate(plan['procs']):
            if p['crash_in_start']:
                n = self.count_start(ctx)
                if n:
                    def crash_start():
                        ctx.shim.arm(self.data, crash_at=1 + int(p['frac'] * n), crash_mode=p['mode'])
                        restart()
                        ctx.shim.disarm()
                    st, _ = ctx.fork(crash_start)
                    ctx.probe('crash_in_clean_up' if st == 'crash' else 'clean_up_not_crashed')
                    self.check_foreign(f'after process {j} crashed while starting')
            status, n = ctx.fork(lambda: self.process(ctx, plan, p, live_files, j, -1))
            self.check_foreign(f'after process {j} ended')
            if p['end'] == 'crash' and n:
                # the fault-free pass above ended abruptly; this one crashes at a chosen disk operation
                status, _ = ctx.fork(lambda: self.process(ctx, plan, p, live_files, j, 1 + int(p['frac'] * n)))
                self.check_foreign(f'after process {j} crashed')
            hist.append((p['end'], status, [o['op'] for o in p['ops']], int(p['frac'] * (n or 0))))

        def last():
            restart()
            self.expect_only(live_files, 'after the last start')
        ctx.fork(last)
        if live:
            live('go')
            self.expect_only(set(), 'after the long-lived process closed its datasets')
        ctx.state((hist, bool(live)))

    def count_start(self, ctx):
        """Size of the crash window of a start-up: about one disk operation per left-over file."""
        return sum(1 for f in listing(self.data) if f not in FOREIGN)

    def check_foreign(self, why):
        have = listing(self.data)
        for f, c in FOREIGN.items():
            if f not in have:
                raise Violation('foreign-file', f'{why}: {f}, which is not a temporary file, was removed')
            with open(have[f], 'rb') as fh:
                if fh.read() != c:
                    raise Violation('foreign-file', f'{why}: {f}, which is not a temporary file, was changed')

    def expect_only(self, extra, why, disk_failed=False):
        self.check_foreign(why)
        have = set(listing(self.data)) - set(FOREIGN)
        if disk_failed:     # the full disk may also have kept the list of temporary files from being rewritten
            have = {f for f in have if f in extra or 'sqlite' in f}
        missing = extra - have
        if missing:
            raise Violation('live-file-removed', f'{why}: {sorted(missing)} of a running process disappeared')
        if have - extra:
            raise Violation('left-over', f'{why}: {sorted(have - extra)} left behind')

    def process(self, ctx, plan, p, live_files, j, crash_at):
        restart()
        self.expect_only(live_files, f'after the start of process {j}')
        set_knobs(plan['knobs'])
        ctx.shim.arm(self.data, crash_at=crash_at, crash_mode=p['mode'])
        r = Runner(ctx, plan)
        disk_failed = False
        for op in p['ops']:
            if op['op'] == 'badload':
                disk_failed |= self.bad_load(ctx, op, rearm=(crash_at < 0))
            else:
                held = None
                if 'held' in op and r.slots:
                    held = self.hold(ctx, r, op['src'] if op['held'] and op['src'] in r.slots else min(r.slots))
                r.do(op)
                del held
        n = ctx.shim.count()
        if p['end'] in ('crash', 'exit'):
            if crash_at < 0:
                LEAKED.append(r)        # the process ends here, without any clean-up
                return n
        if p['end'] == 'same_pid':
            # an abrupt end, then a process that happens to get the same process id (containers)
            LEAKED.append(r)
            LEAKED.append(list(sys.modules.items()))
            ctx.shim.disarm()
            restart()
            self.expect_only(live_files, f'after the restart of process {j} with the same process id')
            return 0
        ids = sorted(r.slots, key=lambda s: (s * 40503 + p['order']) % 65521)
        held = [self.hold(ctx, r, sid) for sid in ids if p.get('held') and sid % 2 == 0]
        for sid in ids:
            r.op_close({'src': sid, 'explicit': p['end'] == 'close', 'twice': sid % 3 == 0, 'after': p.get('after')})
        r.slots.clear()
        del held
        gc.collect()
        ctx.shim.disarm()
        self.expect_only(live_files, f'after process {j} closed all of its datasets', disk_failed)
        return n

    def hold(self, ctx, r, sid):
        """A reader that has read one record and is kept open."""
        g = r.slots[sid].ds.values()
        next(g, None)
        ctx.probe('reader_open_at_close')
        return g

    def bad_load(self, ctx, op, rearm):
        """A load that fails: wrong options, a missing file, or a disk error."""
        from DRecPy.Dataset import InteractionDataset
        path = ctx.path('bad.csv')
        with open(path, 'w') as f:
            f.write('user,item,interaction\n' + ''.join(f'{k},{k},{k}\n' for k in range(300)))
        if op['what'] == 'missing':
            path = ctx.path('nosuch.csv')
        if op['what'] == 'disk':
            if not rearm:
                return False
            import errno
            ctx.shim.arm(self.data, fail_at=op['n'], errno=errno.ENOSPC, sticky=2)
        try:
            ds = InteractionDataset(path, columns=['user', 'item', 'interaction'], in_memory=False, verbose=False,
                                    has_header=op['what'] == 'disk')
            ds.close()
            ok = True
        except Exception:
            ok = False
        if op['what'] == 'disk':
            fired = ctx.shim.fired()
            ctx.fault('disk_full', fired)
            ctx.shim.arm(self.data)
            if not ok and not fired:
                raise Violation('exception', 'load failed without a fault')
        elif ok:
            raise Violation('no-error', f'load of a {op["what"]} file did not fail')
        ctx.probe('failed_loads', 0 if ok else 1)
        return op['what'] == 'disk' and not ok

    def start_live(self, ctx, plan):
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r1)
                os.close(w2)
                try:
                    restart()
                    set_knobs(plan['knobs'])
                    r = Runner(ctx, plan)
                    for op in plan['live']['ops']:
                        r.do(op)
                    os.write(w1, b'ready\n')
                    os.read(r2, 10)
                    for sid in sorted(r.slots):
                        r.audit(sid, 'of a running process, after other processes started and crashed')
                    for sid in sorted(r.slots):
                        r.op_close({'src': sid, 'explicit': True})
                    gc.collect()
                    os.write(w1, b'done\n')
                except Violation as v:
                    os.write(w1, json.dumps([v.kind, v.msg]).encode() + b'\n')
                except BaseException as e:
                    os.write(w1, json.dumps(['exception', short(e)]).encode() + b'\n')
            finally:
                os._exit(0)
        os.close(w1)
        os.close(r2)
        f = os.fdopen(r1, 'r')

        def answer():
            line = f.readline().strip()
            if line.startswith('['):
                raise Violation(*json.loads(line))
            return line
        answer()

        def go(_):
            os.write(w2, b'go')
            a = answer()
            os.waitpid(pid, 0)
            return a
        return go

    def shrink(self, plan):
        for j in range(len(plan['procs'])):
            yield dict(plan, procs=plan['procs'][:j] + plan['procs'][j + 1:])
        if plan['live']:
            yield dict(plan, live=None)
        for j, p in enumerate(plan['procs']):
            for s in range(len(p['ops']) - 1, 0, -1):
                q = dict(p, ops=p['ops'][:s] + p['ops'][s + 1:])
                yield dict(plan, procs=plan['procs'][:j] + [q] + plan['procs'][j + 1:])
            if p['crash_in_start']:
                yield dict(plan, procs=plan['procs'][:j] + [dict(p, crash_in_start=False)] + plan['procs'][j + 1:])


PROP = S07()
