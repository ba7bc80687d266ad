import csv
import errno
import gc
import os
import sqlite3

from ..base import Prop
from ..dsmodel import model_of, norm, write_csv
from ..harness import Violation
from ..runner import Runner, gen_history, gen_knobs, set_knobs, short

HIDDEN = ('rid', 'uid', 'iid')


def key(v):
    """Value as a text file can represent it."""
    if v is None:
        return ''
    if isinstance(v, bool):
        return str(v)
    try:
        return float(v)
    except (TypeError, ValueError):
        return str(v)


def content(path):
    if not os.path.exists(path):
        return None
    with open(path, 'rb') as f:
        return f.read()


def expected(m, columns):
    cols = [c for c in (columns or m.columns) if c not in HIDDEN]
    return cols, sorted(repr([key(v[c]) for c in cols]) for v in m.rows.values())


def parse(path, cols, header):
    """Independent reading of a saved file: (list of rows as key tuples) or an error text."""
    try:
        if path.endswith('.sqlite'):
            con = sqlite3.connect(path)
            try:
                if con.execute('PRAGMA integrity_check').fetchone()[0] != 'ok':
                    return 'damaged database'
                have = [x[1] for x in con.execute('PRAGMA table_info(interactions)')]
                if not set(cols) <= set(have):
                    return f'columns {have}'
                rows = con.execute(f'SELECT {",".join(cols)} FROM interactions').fetchall()
            finally:
                con.close()
        else:
            with open(path, newline='') as f:
                rows = list(csv.reader(f))
            if header:
                if not rows or rows[0] != cols:
                    return f'header {rows[:1]}'
                rows = rows[1:]
            if any(len(x) != len(cols) for x in rows):
                return f'a row with {[len(x) for x in rows if len(x) != len(cols)][0]} fields'
        return sorted(repr([key(norm(v)) for v in x]) for x in rows)
    except Exception as e:
        return short(e)


class S06(Prop):
    ID = 'S06'
    RUNS = {'quick': 3500, 'thorough': 70000}
    WALL = {'quick': 150.0, 'thorough': 1800.0}
    RULE = ('one evaluation = one save (over an older file or none) hit by one crash or disk fault, or one history over a '
            'user-provided file; a distinct case is a distinct (format, backend, history, fault, outcome)')
    REAL = ['DRecPy.Dataset (memory and database backends)', 'SQLite', 'pandas', 'csv', 'file system']
    STUB = ['system call failures, short writes and crash points (disk seam)', 'clock']
    ASSUMPTIONS = ['process crashes: what the process wrote before the crash is on disk (no power loss)',
                   'one writer per target file']

    def gen(self, rng, tier, i):
        sc = rng.choice(['save'] * 5 + ['origin'] * 2)
        n = rng.choice([1, 4, 10])
        fmt = rng.choice(['csv', 'sqlite'])
        ops, slots, _ = gen_history(rng, n, [rng.choice(['mem', 'db'] if fmt == 'csv' else ['db'])], max_rows=rng.choice([4, 15, 40]),
                                    audit_p=0.0, families=1, closes=(sc == 'origin'))
        plan = {'scenario': sc, 'ops': ops, 'knobs': gen_knobs(rng), 'fmt': fmt}
        live = sorted(slots)
        plan['which'] = rng.choice(live)
        have = [c for c in slots[plan['which']].m.columns if c not in HIDDEN]
        if rng.random() < 0.3 and len(have) > 1:
            plan['columns'] = rng.sample(have, rng.randint(1, len(have)))
        plan['header'] = rng.random() < 0.4
        plan['blow'] = rng.choice([1, 1, 1, 40])
        plan['old'] = rng.random() < 0.8
        plan['same_origin'] = rng.random() < 0.25
        plan['crash'] = rng.random() < 0.8
        x = rng.random()
        plan['frac'] = rng.random()
        if x < 0.5:
            plan['fault'] = {'kind': 'crash', 'mode': rng.choice([0, 1, 2])}
        elif x < 0.8:
            plan['fault'] = {'kind': 'fail', 'errno': rng.choice([errno.ENOSPC, errno.EIO, errno.EDQUOT, errno.EACCES]),
                             'sticky': rng.choice([0, 1, 2])}
        elif x < 0.9:
            plan['fault'] = {'kind': 'short', 'bytes': rng.choice([1, 7, 100, 1000])}
        else:
            plan['fault'] = None
        return plan

    # ------------------------------------------------------------------------------------------------ scenarios
    def execute(self, ctx, plan):
        os.makedirs(ctx.path('out'))
        with open(ctx.path('out', 'neighbour.csv'), 'w') as f:
            f.write('not yours\n')
        getattr(self, plan['scenario'])(ctx, plan)
        if content(ctx.path('out', 'neighbour.csv')) != b'not yours\n':
            raise Violation('foreign-file', 'a file next to the saved one was changed')

    def ops(self, plan):
        out = []
        for op in plan['ops']:
            if op['op'] == 'load' and plan['blow'] > 1:
                op = dict(op, rows=(op['rows'] * plan['blow'])[:1500])
            out.append(op)
        return out

    def build(self, ctx, plan, origin=None):
        """Inside a simulated process: run the history, return the runner."""
        set_knobs(plan['knobs'])
        r = Runner(ctx, plan)
        for op in self.ops(plan):
            if op['op'] == 'load' and origin:
                from DRecPy.Dataset import InteractionDataset
                from ..runner import Slot
                ds = r.call('load of a saved database', InteractionDataset, origin, verbose=False)
                r.slots[op['dst']] = Slot(ds, model_of(op['columns'], op['rows']), 'db', dict(op['types']), op['dst'])
                continue
            r.do(op)
        return r

    def save(self, ctx, plan):
        target = ctx.path('out', 'data.' + plan['fmt'])
        origin = None
        if plan['same_origin'] and plan['fmt'] == 'sqlite' and plan['ops'][0]['op'] == 'load':
            origin = target

        def write_old():
            r = Runner(ctx, plan)
            r.do(dict(self.ops(plan)[0], backend='db'))
            ds = r.slots[plan['ops'][0]['dst']].ds
            ds.save(target)
            ds.close()

        def with_runner(fn):
            def go():
                r = self.build(ctx, plan, origin)
                if plan['which'] not in r.slots:
                    return None
                s = r.slots[plan['which']]
                if plan.get('columns') and not all(c in s.m.columns for c in plan['columns']):
                    return None
                if not [c for c in (plan.get('columns') or s.m.columns) if c not in HIDDEN]:
                    return None
                return fn(r, s)
            return go

        def do_save(s):
            kw = {'write_header': plan['header']}
            if plan.get('columns'):
                kw['columns'] = list(plan['columns'])
            s.ds.save(target, **kw)

        def attempt(r, s):
            cols, want = expected(s.m, plan.get('columns'))
            f = plan['fault'] or {}
            n = 1 + int(plan['frac'] * count)
            kind = f.get('kind')
            if kind == 'crash':
                ctx.shim.arm(ctx.path('out'), crash_at=n, crash_mode=f['mode'])
            elif kind == 'fail':
                ctx.shim.arm(ctx.path('out'), fail_at=n, errno=f['errno'], sticky=f['sticky'])
            elif kind == 'short':
                ctx.shim.arm(ctx.path('out'), short=f['bytes'])
            raised = None
            try:
                do_save(s)
            except Exception as e:
                raised = short(e)
            ctx.shim.disarm()
            if kind == 'fail':
                ctx.fault('disk_' + errno.errorcode[f['errno']] + ('', '_sticky', '_full')[f['sticky']], ctx.shim.fired())
            if kind == 'short':
                ctx.fault('short_write', ctx.shim.fired_short())
            if raised and not (kind == 'fail' and ctx.shim.fired()):
                raise Violation('exception', f'save to {plan["fmt"]} raised {raised}')
            r.audit(plan['which'], 'after saving it')
            left = sorted(os.listdir(ctx.path('out')))
            return {'raised': raised, 'left': left}

        def count_ops(r, s):
            ctx.shim.arm(ctx.path('out'))
            do_save(s)
            ctx.shim.disarm()
            cols, want = expected(s.m, plan.get('columns'))
            return {'n': ctx.shim.count(), 'cols': cols, 'want': want}

        # a fault-free save tells how many disk operations it takes and what the new content has to be
        if origin:
            ctx.fork(write_old)
        _, info = ctx.fork(with_runner(count_ops))
        if info is None:
            return
        count, cols, want = info['n'], info['cols'], info['want']
        got = parse(target, cols, plan['header'])
        if got != want:
            raise Violation('wrong-file', f'saved {plan["fmt"]} file: {str(got)[:300]}, expected {str(want)[:300]}')
        self.reload(ctx, plan, target, cols, want)
        os.remove(target)
        for x in os.listdir(ctx.path('out')):
            if x != 'neighbour.csv':
                raise Violation('left-over', f'{x} left next to the saved file')

        if origin or plan['old']:
            ctx.fork(write_old)
        old = content(target)
        status, res = ctx.fork(with_runner(attempt))
        now = content(target)
        is_old = now == old
        got = parse(target, cols, plan['header']) if now is not None else 'no file'
        is_new = got == want
        what = f'save of {len(want)} records to {plan["fmt"]} ' + ('over an older file' if old is not None else '') + \
            f' with fault {plan["fault"]}'
        if status == 'crash':
            ctx.probe('crash_left_new' if is_new and not is_old else 'crash_left_old')
            if not (is_old or is_new):
                raise Violation('torn-file', f'{what}: after the crash the file is neither the old nor the new one '
                                             f'({str(got)[:300]})')
            if is_old or not origin:
                status, res = ctx.fork(with_runner(lambda r, s: do_save(s)))     # the process is started again
            got = parse(target, cols, plan['header'])
            if got != want:
                raise Violation('wrong-file', f'{what}: saving again after a crash left {str(got)[:300]}')
        elif res['raised']:
            if not is_old:
                raise Violation('torn-file', f'{what} raised {res["raised"]}, but the file changed ({str(got)[:300]})')
        else:
            if not is_new:
                raise Violation('wrong-file', f'{what} succeeded, but the file holds {str(got)[:300]}, '
                                              f'expected {str(want)[:300]}')
        if status == 'ok' and res and 'left' in res and [x for x in res['left'] if x not in ('neighbour.csv', os.path.basename(target))] \
                and not (plan['fault'] or {}).get('sticky'):
            raise Violation('left-over', f'{what}: left {res["left"]}')
        ctx.state((plan['fmt'], plan['ops'][0].get('backend'), [o['op'] for o in plan['ops']], plan['fault'],
                   int(plan['frac'] * count), old is None, status, bool(res and res.get('raised'))))

    def reload(self, ctx, plan, target, cols, want):
        """Round trip through the loader, on both backends where the format allows it."""
        if not {'user', 'item', 'interaction'} <= set(cols):
            return

        def go():
            from DRecPy.Dataset import InteractionDataset
            for mem in ((True, False) if plan['fmt'] == 'csv' else (False,)):
                kw = {} if plan['fmt'] == 'sqlite' else {'columns': list(cols), 'has_header': plan['header']}
                try:
                    ds = InteractionDataset(target, in_memory=mem, verbose=False, **kw)
                    recs = [[key(norm(rec[c])) for c in cols] for rec in ds.values_list()]
                    rids = sorted(ds.values_list('rid', to_list=True))
                    ds.close()
                except Exception as e:
                    if plan['fmt'] == 'csv':
                        ctx.probe('reload_refused')     # e.g. an interaction column turned into text
                        continue
                    raise Violation('exception', f'loading the saved file raised {short(e)}')
                if sorted(map(repr, recs)) != want:
                    raise Violation('round-trip', f'loaded {str(recs)[:300]} (in memory: {mem}), expected {str(want)[:300]}')
                if rids != list(range(len(want))):
                    raise Violation('round-trip', f'record ids of the loaded file: {rids[:10]}')
                ctx.probe('round_trips')
        ctx.fork(go)

    def origin(self, ctx, plan):
        """A database file the user provided is only read, whatever happens to the datasets loaded from it."""
        path = ctx.path('out', 'mine.sqlite')
        first = self.ops(plan)[0]
        if first['op'] != 'load':
            return

        def write():
            r = Runner(ctx, plan)
            r.do(dict(first, backend='db'))
            ds = r.slots[first['dst']].ds
            ds.save(path)
            ds.close()
        ctx.fork(write)
        before = content(path)

        def use(crash_at):
            def go():
                ctx.shim.arm(ctx.scratch, crash_at=crash_at, crash_mode=(plan['fault'] or {}).get('mode', 0))
                r = self.build(ctx, plan, path)
                for sid in sorted(r.slots):
                    r.audit(sid, 'at the end')
                for sid in sorted(r.slots):
                    r.op_close({'src': sid, 'explicit': sid % 2 == 0})
                gc.collect()
                n = ctx.shim.count()
                ctx.shim.disarm()
                return n
            return go
        _, n = ctx.fork(use(-1))
        if content(path) != before:
            raise Violation('user-file-changed', 'the database file the dataset was loaded from was changed or removed')
        status = 'ok'
        if plan['crash'] and n:
            status, _ = ctx.fork(use(1 + int(plan['frac'] * n)))
            if content(path) != before:
                raise Violation('user-file-changed', 'the database file the dataset was loaded from was changed or '
                                                     'removed by a process that crashed')
        left = [x for x in os.listdir(ctx.path('out')) if x not in ('neighbour.csv', 'mine.sqlite')]
        if left:
            raise Violation('left-over', f'{left} created next to the file the dataset was loaded from')
        ctx.probe('origin_runs')
        ctx.state(('origin', [(o['op'], o.get('copy')) for o in plan['ops']], status, int(plan['frac'] * n)))

    def shrink(self, plan):
        for p in super().shrink(plan):
            if p['ops'] and p['ops'][0]['op'] == 'load':
                yield p
        if plan.get('columns'):
            yield {k: v for k, v in plan.items() if k != 'columns'}
        if plan['blow'] > 1:
            yield dict(plan, blow=1)
        rows = plan['ops'][0]['rows']
        if len(rows) > 2:
            yield dict(plan, ops=[dict(plan['ops'][0], rows=rows[:len(rows) // 2])] + plan['ops'][1:])


PROP = S06()
