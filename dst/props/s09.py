import math

from .. import seams
from ..base import Prop, gen_sched
from ..dsmodel import gen_conds, gen_table, model_of, norm, q, read_all
from ..harness import Violation
from ..runner import gen_knobs, load, set_knobs, short


def gen_split(rng, timestamps=True, big=False):
    """A dataset (possibly a derived view) and a split request."""
    cols, rows, types = gen_table(rng, max_rows=rng.choice([8, 25, 40, 50] if not big else [60, 120]), min_rows=4,
                                  dup=rng.random() < 0.5, n_users=rng.choice([None, 4, 7, 10]))
    backend = rng.choice(['mem', 'db'])
    plan = {'backend': backend, 'columns': cols, 'rows': rows, 'types': types, 'knobs': gen_knobs(rng), 'views': []}
    m = model_of(cols, rows)
    for _ in range(rng.choice([0, 0, 1, 2, 3])):
        for _ in range(6):
            c = gen_conds(rng, m, types, n_max=1)
            if len(m.matching(c)) >= max(3, len(m.rows) // 2):
                plan['views'].append(['select', c])
                m.select(c)
                break
        if rng.random() < 0.3 and len(m.rows) > 4:
            rids = rng.sample(sorted(m.rows), 1)
            plan['views'].append(['drop', rids])
            m.drop(rids, False)
    plan['ids'] = rng.random() < 0.2
    kind = rng.choice(['leave_k', 'leave_k', 'leave_ratio', 'leave_ratio', 'random', 'matrix', 'matrix'])
    a = {'seed': rng.choice([0, 1, 7, 1234])}
    if kind != 'random':
        a['max_concurrent_threads'] = rng.choice([1, 2, 3, 4, 8, 8])
        a['min_user_interactions'] = rng.choice([0, 0, 2, 3, 4])
    if kind == 'leave_k':
        a['k'] = rng.choice([1, 1, 1, 2, 3, 5])
    elif kind == 'leave_ratio':
        a['k'] = rng.choice([0.1, 0.25, 0.5, 0.75, 0.9])
    elif kind == 'random':
        a['test_ratio'] = rng.choice([0.1, 0.25, 0.5, 0.75, 0.9])
    else:
        a['user_test_ratio'] = rng.choice([0.2, 0.5, 0.8, 1.0])
        a['item_test_ratio'] = rng.choice([0.2, 0.5, 0.8, 1.0])
    if kind.startswith('leave') and timestamps and 'timestamp' in cols and rng.random() < 0.4:
        a['last_timestamps'] = True
    if rng.random() < 0.5:
        a['verbose'] = False
    plan['kind'], plan['args'], plan['repeat'] = kind, a, rng.choice([0, 1, 3])
    plan['ref'] = rng.choice([backend, 'mem'])
    plan['sched'] = gen_sched(rng)
    return plan


def build(ctx, plan, name):
    """The dataset of the plan and its model."""
    set_knobs(plan['knobs'])
    m = model_of(plan['columns'], plan['rows'])
    ds = load(ctx, plan['backend'], plan['columns'], plan['rows'], name, knobs=plan['knobs'])
    if plan.get('ids'):
        ds.assign_internal_ids()
    for v in plan['views']:
        if v[0] == 'select':
            ds = ds.select(q(v[1]))
            m.select(v[1])
        else:
            ds = ds.drop(list(v[1]))
            m.drop(v[1], False)
    return ds, m


def run_split(kind, ds, args):
    from DRecPy.Evaluation.Splits import leave_k_out, matrix_split, random_split
    fn = {'leave_k': leave_k_out, 'leave_ratio': leave_k_out, 'random': random_split, 'matrix': matrix_split}[kind]
    return fn(ds, **args)


def plain(ds):
    return {r: {c: v for c, v in row.items() if c not in ('uid', 'iid')} for r, row in read_all(ds).items()}


def known_last(rows, k):
    """Exactly the selection of the listed finding: a heap that replaces unconditionally."""
    from heapq import heappush, heapreplace
    h = []
    for r in sorted(rows):
        x = (rows[r]['timestamp'], r)
        if len(h) < k:
            heappush(h, x)
        else:
            heapreplace(h, x)
    return {r for _, r in h}


def check_split(ctx, plan, m, train, test):
    kind, a = plan['kind'], plan['args']
    tag = f'{kind} split of a {plan["backend"]} dataset ({a})'
    rows = {r: v for r, v in m.rows.items()}
    for name, part in (('train', train), ('test', test)):
        for r, v in part.items():
            if r not in rows:
                raise Violation('invented-record', f'{tag}: {name} record {r} {v} is not in the dataset')
            if v != rows[r]:
                raise Violation('changed-record', f'{tag}: {name} record {r} is {v}, was {rows[r]}')
    both = set(train) & set(test)
    if both:
        raise Violation('overlap', f'{tag}: records {sorted(both)[:5]} are in train and test')
    users = {}
    for r, v in rows.items():
        users.setdefault(v['user'], []).append(r)
    floor = a.get('min_user_interactions', 0)
    want = {r for u, rs in users.items() if len(rs) >= floor for r in rs}
    got = set(train) | set(test)
    if got != want:
        raise Violation('lost-record', f'{tag}: records {sorted(want - got)[:5]} are in neither part, '
                                       f'{sorted(got - want)[:5]} should have been left out')
    tu = {u: [r for r in rs if r in test] for u, rs in users.items()}
    if kind.startswith('leave'):
        for u, rs in users.items():
            n, k = len(rs), a['k']
            k = int(n * k) if kind == 'leave_ratio' else k
            exp = k if n >= floor and n > k > 0 else 0
            if len(tu[u]) != exp:
                raise Violation('wrong-count', f'{tag}: user {u!r} with {n} records has {len(tu[u])} of them in test, '
                                               f'expected {exp}')
            if a.get('last_timestamps') and exp:
                mine = {r: rows[r] for r in rs}
                low = min(mine[r]['timestamp'] for r in tu[u])
                high = max(mine[r]['timestamp'] for r in rs if r not in tu[u])
                if low < high:
                    if set(tu[u]) == known_last(mine, exp):
                        ctx.known('S09-last-timestamps', f'{tag}: user {u!r}')
                    else:
                        raise Violation('wrong-records', f'{tag}: test of user {u!r} has a record at {low}, train one at '
                                                         f'{high}')
                ctx.probe('last_timestamps_users')
    elif kind == 'random':
        n = math.floor(len(rows) * a['test_ratio'])
        if len(test) != n:
            raise Violation('wrong-count', f'{tag}: {len(test)} test records, expected {n}')
    else:
        items = {v['item'] for v in rows.values()}
        titems = {rows[r]['item'] for r in test}
        tusers = {rows[r]['user'] for r in test}
        if len(titems) > math.floor(len(items) * a['item_test_ratio']) or \
                len(tusers) > math.floor(len(users) * a['user_test_ratio']):
            raise Violation('wrong-count', f'{tag}: {len(tusers)} users and {len(titems)} items in test')
        for u in tusers:
            if len(tu[u]) == len(users[u]):
                raise Violation('wrong-count', f'{tag}: every record of user {u!r} is in test')
            for r in users[u]:
                if rows[r]['item'] in titems and r not in test:
                    raise Violation('wrong-records', f'{tag}: record {r} of test user {u!r} and test item is in train')


class S09(Prop):
    ID = 'S09'
    RUNS = {'quick': 2500, 'thorough': 50000}
    WALL = {'quick': 150.0, 'thorough': 1800.0}
    RULE = ('one evaluation = one dataset split under one schedule of its worker threads; a distinct case is a distinct '
            '(split, backend, view, schedule signature)')
    REAL = ['DRecPy.Evaluation.Splits', 'DRecPy.Dataset (memory and database backends)', 'SQLite', 'pandas']
    STUB = ['thread pool, threads, locks and clock (simulated scheduler)']
    ASSUMPTIONS = ['one split at a time (concurrent calls of a split are documented as unsupported)']

    def gen(self, rng, tier, i):
        return gen_split(rng, big=rng.random() < 0.05)

    def execute(self, ctx, plan):
        a = plan['args']
        ds, m = build(ctx, plan, 't')
        if plan['kind'] == 'random' and math.floor(len(m.rows) * a['test_ratio']) == 0:
            return
        if not m.rows:
            return
        try:
            train, test = run_split(plan['kind'], ds, dict(a))
        except Exception as e:
            raise Violation('exception', f'{plan["kind"]} split of a {plan["backend"]} dataset ({a}) raised {short(e)}')
        tr, te = self.read(train, 'train'), self.read(test, 'test')
        check_split(ctx, plan, m, tr, te)
        if self.read(ds, 'split dataset') != m.rows:
            raise Violation('source-changed', f'{plan["kind"]} split changed the dataset it was given')
        for j in range(plan['repeat']):         # the same request again, under other schedules
            te2 = set(run_split(plan['kind'], ds, dict(a, verbose=False))[1].values_list('rid', to_list=True))
            if te2 != set(te):
                raise Violation('schedule-dependent', f'{plan["kind"]} split ({a}): test records {sorted(te)[:12]}, the same '
                                                      f'request again {sorted(te2)[:12]}')
        # the same request, without concurrency, on a second copy of the data
        k = ctx.k
        k.rate = k.hot = 0.0
        k._arm()
        ds2, _ = build(ctx, dict(plan, backend=plan['ref']), 'ref')
        b = dict(a)
        if 'max_concurrent_threads' in b:
            b['max_concurrent_threads'] = 1
        b['verbose'] = False
        tr2, te2 = run_split(plan['kind'], ds2, b)
        tr2, te2 = plain(tr2), plain(te2)
        if (tr, te) != (tr2, te2):
            raise Violation('schedule-dependent', f'{plan["kind"]} split ({a}): test records {sorted(te)[:12]}, with one '
                                                  f'worker over a fresh {plan["ref"]} dataset {sorted(te2)[:12]}')
        ctx.log('split', sorted(tr), sorted(te))
        ctx.state((plan['kind'], plan['backend'], len(plan['views']), k.signature))
        ctx.probe('split_' + plan['kind'])

    def read(self, ds, what):
        try:
            n = len(ds)
            out = plain(ds)
        except AssertionError as e:
            raise Violation('wrong-records', f'{what}: {e}')
        except Exception as e:
            raise Violation('exception', f'reading the {what} raised {short(e)}')
        if n != len(out):
            raise Violation('wrong-records', f'{what}: length {n}, {len(out)} records')
        return out

    def shrink(self, plan):
        for j in range(len(plan['views'])):
            yield dict(plan, views=plan['views'][:j] + plan['views'][j + 1:])
        rows = plan['rows']
        size = max(1, len(rows) // 2)
        while size >= 1:
            for s in range(0, len(rows), size):
                if len(rows) - size >= 2:
                    yield dict(plan, rows=rows[:s] + rows[s + size:])
            size //= 2
        if plan['args'].get('max_concurrent_threads', 1) > 2:
            yield dict(plan, args=dict(plan['args'], max_concurrent_threads=2))
        if plan['repeat']:
            yield dict(plan, repeat=0)
        if plan['ids']:
            yield dict(plan, ids=False)


PROP = S09()
