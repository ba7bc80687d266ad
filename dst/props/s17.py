import random
import threading
import time

from .. import seams
from ..base import Prop, gen_sched
from ..dsmodel import FUNCS, gen_conds, gen_table, model_of, norm, norm_row, q, read_all
from ..harness import Violation
from ..runner import gen_knobs, load, set_knobs, short

READS = ['len', 'read', 'read', 'reader', 'select', 'one', 'unique', 'nuniq', 'minmax', 'drop', 'uvec', 'uvec', 'ivec', 'ivec',
         'lookup', 'random', 'null', 'copy', 'own_ids', 'own_apply', 'own_select', 'own_close', 'gc']


def gen_script(rng, n, ops=READS):
    return [[rng.choice(ops), rng.randrange(1000), rng.randrange(1000)] for _ in range(n)]


class Client:
    """One thread of a user program: reads datasets it shares with other threads, and derives (and modifies) its own."""

    def __init__(self, plan, shared, script, tag):
        self.plan, self.shared, self.script, self.tag = plan, shared, script, tag
        self.mine, self.out, self.errors = [], [], []

    def run(self):
        for j, (op, a, b) in enumerate(self.script):
            try:
                self.out.append([op, getattr(self, op)(a, b)])
            except Exception as e:
                self.out.append([op, 'failed'])
                self.errors.append((j, op, short(e)))

    def pick(self, a, own=False):
        pool = self.mine if own else self.shared + self.mine
        return pool[a % len(pool)] if pool else None

    def conds(self, ds, b, rnd):
        r = random.Random(f'{rnd}:{b}')
        c = gen_conds(r, self.plan_model, self.plan['types'], n_max=2, columns=[c for c in ds.columns if c not in
                                                                               ('uid', 'iid')])
        return q(c)

    def snap(self, ds):
        return sorted((r, sorted(v.items(), key=str)) for r, v in read_all(ds).items())

    # ---------------------------------------------------------------------------------------- on any dataset
    def len(self, a, b):
        return len(self.pick(a))

    def read(self, a, b):
        return self.snap(self.pick(a))

    def reader(self, a, b):
        ds = self.pick(a)
        g = ds.values(columns=['rid', 'user'] if 'user' in ds.columns else ['rid'])
        out = []
        for rec in g:
            out.append(sorted(norm_row(rec).items()))
            if len(out) == 1 + b % 9:
                self.shared[0].max('rid')       # does something else in between
            if b % 4 == 0 and len(out) > b % 7:
                break                           # abandoned
        return out if b % 4 == 0 else sorted(out)

    def select(self, a, b):
        ds = self.pick(a)
        new = ds.select(self.conds(ds, b, 'select'))
        if len(self.mine) < 3:
            self.mine.append(new)
        return self.snap(new)

    def one(self, a, b):
        ds = self.pick(a)
        rids = sorted(norm(x) for x in ds.values_list(columns=['rid'], to_list=True))
        rid = rids[b % len(rids)] if rids else 0
        rec = ds.select_one(f'rid == {rid}')
        return None if rec is None else sorted(norm_row(rec).items(), key=str)

    def unique(self, a, b):
        ds = self.pick(a)
        cols = [c for c in ('user', 'item', 'interaction') if c in ds.columns]
        return sorted(str(norm(v)) for v in ds.unique(cols[b % len(cols)]).values_list(columns=[cols[b % len(cols)]],
                                                                                      to_list=True)) if cols else None

    def nuniq(self, a, b):
        ds = self.pick(a)
        cols = [c for c in ('user', 'item', 'interaction') if c in ds.columns]
        return ds.count_unique(cols[b % len(cols)]) if cols else None

    def minmax(self, a, b):
        ds = self.pick(a)
        c = ['rid', 'interaction'][b % 2]
        return [norm(ds.max(c)), norm(ds.min(c))] if c in ds.columns else None

    def drop(self, a, b):
        ds = self.pick(a)
        new = ds.drop([b % 10, b % 7], keep=b % 2 == 0)
        if len(self.mine) < 3:
            self.mine.append(new)
        return self.snap(new)

    def vec(self, a, b, kind):
        ds = self.pick(a)
        ids = 'uid' if kind == 'user' else 'iid'
        if not ds.has_internal_ids or ids not in ds.columns or 'interaction' not in ds.columns or len(ds) == 0:
            return None
        present = sorted({int(x) for x in ds.values_list(columns=[ids], to_list=True)})
        v = getattr(ds, f'select_{kind}_interaction_vec')(present[b % len(present)])
        if v.shape[0] != 1:
            return ['shape', list(v.shape)]
        return [list(v.shape), [round(float(x), 6) for x in v.toarray()[0]]]

    def uvec(self, a, b):
        return self.vec(a, b, 'user')

    def ivec(self, a, b):
        return self.vec(a, b, 'item')

    def lookup(self, a, b):
        ds = self.pick(a)
        if not ds.has_internal_ids or 'user' not in ds.columns or 'uid' not in ds.columns or len(ds) == 0:
            return None
        out = []
        for raw, there, back in (('user', ds.user_to_uid, ds.uid_to_user), ('item', ds.item_to_iid, ds.iid_to_item)):
            if raw in ds.columns and raw.replace('user', 'uid').replace('item', 'iid') in ds.columns:
                xs = sorted({norm(x) for x in ds.values_list(columns=[raw], to_list=True)}, key=str)
                for j in range(b % 4 + 1):
                    x = xs[(b + j) % len(xs)]
                    n = there(x)
                    out.append([norm(n), norm(back(n)) == x])
        return out

    def random(self, a, b):
        ds = self.pick(a)
        if not ds.has_internal_ids or 'uid' not in ds.columns or 'iid' not in ds.columns or len(ds) == 0:
            return None
        g = ds.select_random_generator(seed=b)
        return [sorted(norm_row(next(g)).items(), key=str) for _ in range(2)]

    def null(self, a, b):
        ds = self.pick(a)
        if not ds.has_internal_ids or 'uid' not in ds.columns or 'iid' not in ds.columns or len(ds) == 0:
            return None
        pairs = {(norm(x[0]), norm(x[1])) for x in ds.values_list(columns=['uid', 'iid'], to_list=True)}
        if len(pairs) >= (int(ds.max('uid')) + 1) * (int(ds.max('iid')) + 1):
            return None
        g = ds.null_interaction_pair_generator(seed=b)
        return [[norm(x) for x in next(g)] for _ in range(2)]

    # ---------------------------------------------------------------------------------------- own datasets
    def copy(self, a, b):
        new = self.pick(a).copy()
        if len(self.mine) < 3:
            self.mine.append(new)
        return len(new)

    def own_ids(self, a, b):
        ds = self.pick(a, own=True)
        if ds is None or 'user' not in ds.columns or 'item' not in ds.columns:
            return None
        self.patiently(ds, ds.assign_internal_ids)
        return self.snap(ds)

    def patiently(self, ds, fn, *a):
        """Modifications may be refused while another thread reads the same data: nothing changes then, and they succeed
        once the reader is done."""
        for n in range(200):
            before = self.snap(ds)
            try:
                return fn(*a)
            except Exception as e:
                if 'locked' not in str(e):
                    raise
            if self.snap(ds) != before:
                raise Violation('refused-but-changed', 'a refused modification changed the dataset')
            time.sleep(0.01)
        raise Exception('refused forever')

    def own_apply(self, a, b):
        ds = self.pick(a, own=True)
        if ds is None or 'interaction' not in ds.columns or len(ds) == 0:
            return None
        self.patiently(ds, ds.apply, 'interaction', FUNCS['inc'])
        return self.snap(ds)

    def own_select(self, a, b):
        ds = self.pick(a, own=True)
        if ds is None:
            return None
        ds.select(self.conds(ds, b, 'own'), copy=False)
        return self.snap(ds)

    def own_close(self, a, b):
        if not self.mine:
            return None
        ds = self.mine.pop(a % len(self.mine))
        if b % 2 and hasattr(ds, 'close'):
            ds.close()
        del ds

    def gc(self, a, b):
        import gc
        gc.collect()


class S17(Prop):
    ID = 'S17'
    RUNS = {'quick': 4000, 'thorough': 80000}
    WALL = {'quick': 170.0, 'thorough': 1800.0}
    RULE = ('one evaluation = several client threads over shared datasets under one schedule; a distinct case is a distinct '
            '(scripts, schedule signature)')
    REAL = ['DRecPy.Dataset (both backends)', 'SQLite', 'pandas', 'scipy.sparse']
    STUB = ['threads, locks and clock (simulated scheduler)', 'statement failures (SQLite API seam)', 'garbage collection '
            '(explicit)']
    ASSUMPTIONS = ['datasets shared between threads are not modified in place (each thread modifies only datasets it derived '
                   'itself)', 'preemption at byte codes of /repo code, locks and SQL statements']

    def gen(self, rng, tier, i):
        cols, rows, types = gen_table(rng, max_rows=rng.choice([6, 12, 25]), min_rows=3, dup=False)
        plan = {'backend': rng.choice(['mem', 'db']), 'columns': cols, 'rows': rows, 'types': types,
                'knobs': gen_knobs(rng), 'views': [], 'ids': rng.random() < 0.85,
                'scripts': [gen_script(rng, rng.choice([1, 2, 4, 8])) for _ in range(rng.choice([2, 2, 3, 4]))],
                'sched': gen_sched(rng), 'fail': None}
        if rng.random() < 0.4:                  # few kinds of requests, so that they meet
            ops = rng.choice([['uvec', 'ivec'], ['uvec', 'ivec', 'own_apply', 'copy'], rng.sample(READS, 3), ['lookup'],
                              ['select', 'copy', 'own_close', 'gc'], ['read', 'reader', 'select', 'own_select']])
            plan['scripts'] = [gen_script(rng, rng.choice([1, 1, 2, 4]), ops) for _ in plan['scripts']]
        m = model_of(cols, rows)
        for _ in range(rng.choice([0, 1, 1, 2])):
            c = gen_conds(rng, m, types, n_max=1, columns=['user', 'item', 'interaction', 'rid'])
            if len(m.matching(c)) >= max(2, len(m.rows) // 2):
                plan['views'].append(c)
                m.select(c)
        if plan['backend'] == 'db' and rng.random() < 0.25:
            plan['fail'] = [rng.randint(1, 150), rng.choice([1, 1, 2])]
        if rng.random() < 0.3:                  # the same requests by everyone
            plan['scripts'] = [plan['scripts'][0]] * len(plan['scripts'])
        return plan

    def world(self, ctx, plan, name):
        set_knobs(plan['knobs'])
        ds = load(ctx, plan['backend'], plan['columns'], plan['rows'], name, knobs=plan['knobs'])
        if plan['ids']:
            ds.assign_internal_ids()
        shared = [ds]
        for c in plan['views']:
            shared.append(shared[-1].select(q(c)))
        return shared

    def execute(self, ctx, plan):
        import gc
        k = ctx.k
        m = model_of(plan['columns'], plan['rows'])
        Client.plan_model = m
        rate, k.rate = k.rate, 0.0
        k._arm()
        want = []
        for j, s in enumerate(plan['scripts']):
            shared = self.world(ctx, plan, f'w{j}')
            c = Client(plan, shared, s, j)
            c.run()
            if c.errors:
                raise Violation('exception', f'{plan["backend"]} dataset, one thread: {c.errors[0][1]} raised {c.errors[0][2]}')
            want.append(c.out)
            del c, shared
            gc.collect()
        shared = self.world(ctx, plan, 'shared')
        before = [read_all(d) for d in shared]
        k.rate = rate
        k._arm()
        cs = [Client(plan, list(shared), s, j) for j, s in enumerate(plan['scripts'])]
        n0 = seams.STATS.get('fault_sql', 0)
        if plan['fail']:
            seams.arm_sql({plan['fail'][0] + j: 'disk I/O error' for j in range(plan['fail'][1])})
        ts = [threading.Thread(target=c.run) for c in cs]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        seams.arm_sql()
        fired = seams.STATS.get('fault_sql', 0) - n0
        k.rate = 0.0
        k._arm()
        nfail = sum(len(c.errors) for c in cs)
        for c, w in zip(cs, want):
            if c.errors and not fired:
                raise Violation('exception', f'{plan["backend"]} dataset shared by {len(cs)} threads: {c.errors[0][1]} raised '
                                             f'{c.errors[0][2]}')
            if c.errors and plan['fail']:
                ctx.probe('request_failed', len(c.errors))
            lim = c.errors[0][0] if c.errors else len(w)    # later requests of that client may build on the failed one
            for x, y in list(zip(c.out, w))[:lim]:
                if x != y:
                    raise Violation('wrong-result', f'{plan["backend"]} dataset shared by {len(cs)} threads: {x[0]} returned '
                                                    f'{str(x[1])[:300]}, alone it returns {str(y[1])[:300]}')
            if len(c.out) != len(w):
                raise Violation('lost-thread', f'a client ended after {len(c.out)} of {len(w)} requests')
        if plan['fail'] and sum(1 for c in cs if c.errors) > fired:
            raise Violation('spread', f'{fired} failing statements made requests of {sum(1 for c in cs if c.errors)} '
                                      f'threads fail: {[c.errors[:1] for c in cs]}')
        del c
        cs = None
        gc.collect()
        for d, b in zip(shared, before):
            if read_all(d) != b:
                raise Violation('shared-changed', f'{plan["backend"]} dataset shared by threads changed: {len(d)} records, '
                                                  f'had {len(b)}')
        ctx.log('done', want)
        ctx.probe('clients', len(plan['scripts']))
        ctx.state((plan['backend'], str(plan['scripts']), k.signature))

    def shrink(self, plan):
        ss = plan['scripts']
        for j in range(len(ss)):
            if len(ss) > 2:
                yield dict(plan, scripts=ss[:j] + ss[j + 1:])
        for j, s in enumerate(ss):
            for x in range(len(s)):
                if len(s) > 1:
                    yield dict(plan, scripts=ss[:j] + [s[:x] + s[x + 1:]] + ss[j + 1:])
        for j in range(len(plan['views'])):
            yield dict(plan, views=plan['views'][:j] + plan['views'][j + 1:])
        rows = plan['rows']
        for s in range(len(rows) - 1, 0, -1):
            if len(rows) > 2:
                yield dict(plan, rows=rows[:s] + rows[s + 1:])


PROP = S17()
