import threading

from .. import seams
from ..base import Prop, gen_sched
from ..dsmodel import gen_table, norm, read_all
from ..harness import Violation
from ..models import fit_deep, fits_deep, gen_deep, gen_deep_rows, gen_knn, make_deep, make_knn, scripted
from ..runner import gen_knobs, load, set_knobs, short

REQ = ['predict', 'predict', 'predict', 'recommend', 'rank', 'rank', 'read', 'select', 'vec']


def rnd(x):
    return None if x is None else round(float(x), 9)


class User:
    def __init__(self, m, ds, plan, script):
        self.m, self.ds, self.plan, self.script, self.out, self.errors = m, ds, plan, script, [], []
        self.users = sorted({r[0] for r in plan['rows']}, key=str)
        self.items = sorted({r[1] for r in plan['rows']}, key=str)

    def run(self):
        for j, s in enumerate(self.script):
            try:
                self.out.append(self.one(*s))
            except Exception as e:
                self.out.append('failed')
                self.errors.append((j, s, short(e)))

    def one(self, op, a, b, novelty):
        u, i = self.users[a % len(self.users)], self.items[b % len(self.items)]
        m, ds = self.m, self.ds
        if op == 'predict':
            return rnd(m.predict(u, i, skip_errors=True))
        if op == 'recommend':
            return self.ranked(m.recommend(u, novelty=novelty, n=None if b % 3 else len(self.items)))
        if op == 'rank':
            return self.ranked(m.rank(u, self.items[:1 + b % len(self.items)], novelty=novelty))
        if op == 'read':
            return sorted((r, sorted((k, v) for k, v in x.items() if k not in ('uid', 'iid'))) for r, x in read_all(ds).items())
        if op == 'select':
            return len(ds.select(f'interaction > {b % 5}').select(f'interaction < {4 + a % 3}'))
        d = m.interaction_dataset
        uid = d.user_to_uid(u)
        return [rnd(x) for x in d.select_user_interaction_vec(int(uid)).toarray()[0]]

    def ranked(self, xs):
        return sorted(([rnd(s), str(norm(i))] for s, i in xs), key=lambda x: (-x[0], x[1]))


class S16(Prop):
    ID = 'S16'
    RUNS = {'quick': 1500, 'thorough': 50000}
    WALL = {'quick': 170.0, 'thorough': 1800.0}
    RULE = ('one evaluation = several threads using one fitted model under one schedule; a distinct case is a distinct '
            '(model, requests, schedule signature)')
    REAL = ['DRecPy nearest-neighbour and deep recommenders', 'DRecPy.Recommender.RecommenderABC (predict, rank, recommend)',
            'DRecPy.Dataset (both backends)', 'SQLite', 'pandas']
    STUB = ['threads, locks and clock (simulated scheduler)', 'statement failures (SQLite API seam)', 'scripted scoring '
            'function (part of the runs)']
    ASSUMPTIONS = ['the model is not fitted while it is being used', 'items with equal scores may come in any order']

    def gen(self, rng, tier, i):
        cols, rows, types = gen_table(rng, max_rows=rng.choice([6, 12, 20]), min_rows=4, dup=False, extra=False,
                                      interactions=[1, 2, 3, 4, 5])
        plan = {'backend': rng.choice(['mem', 'db', 'db']), 'columns': cols, 'rows': rows, 'knobs': gen_knobs(rng),
                'knn': gen_knn(rng) if rng.random() < 0.75 else None, 'copy': rng.random() < 0.4,
                'view': rng.choice([None, None, 'interaction > 1', 'interaction < 5']), 'salt': rng.randrange(100),
                'holes': rng.choice([0, 20]), 'fail': None, 'sched': gen_sched(rng)}
        ops = rng.choice([REQ, REQ, ['predict', 'vec'], ['rank', 'select'], ['recommend']])
        plan['scripts'] = [[[rng.choice(ops), rng.randrange(100), rng.randrange(100), rng.random() < 0.6]
                            for _ in range(rng.choice([1, 2, 3, 5]))] for _ in range(rng.choice([2, 2, 3, 4]))]
        if rng.random() < 0.3:
            plan['scripts'] = [plan['scripts'][0]] * len(plan['scripts'])
        if rng.random() < 0.08:
            plan['deep'] = dict(gen_deep(rng), epochs=1)
            plan['columns'], plan['rows'] = gen_deep_rows(rng)
            plan.update(view=None, knn=None)
        if plan['backend'] == 'db' and rng.random() < 0.25:
            plan['fail'] = [rng.randint(1, 120), rng.choice([1, 1, 2])]
        return plan

    def world(self, ctx, plan, name):
        set_knobs(plan['knobs'])
        ds = load(ctx, plan['backend'], plan['columns'], plan['rows'], name, knobs=plan['knobs'])
        if plan['view']:
            v = ds.select(plan['view'])
            ds = v if len(v) >= 3 else ds
        if plan.get('deep'):
            m = make_deep(plan['deep'])
            fit_deep(m, plan['deep'], ds, plan['copy'])
            ctx.probe('deep_models')
            return m, ds
        m = make_knn(plan['knn']) if plan['knn'] else scripted()(salt=plan['salt'], holes=plan['holes'], verbose=False)
        m.fit(ds, copy_dataset=plan['copy'])
        return m, ds

    def execute(self, ctx, plan):
        k = ctx.k
        if plan.get('deep') and not fits_deep(plan['deep'], plan['rows']):
            return
        rate, hot = k.rate, k.hot
        k.rate = k.hot = 0
        k._arm()
        m, ds = self.world(ctx, plan, 'a')
        known = {r[0] for r in plan['rows'] if m.interaction_dataset.user_to_uid(r[0]) is not None}
        rows = [r for r in plan['rows'] if r[0] in known]
        if len(rows) < 2:
            return
        plan = dict(plan, rows_used=rows)
        want = []
        for s in plan['scripts']:
            u = User(m, ds, dict(plan, rows=rows), s)
            u.run()
            if u.errors:
                raise Violation('exception', f'{plan["backend"]} model, one thread: {u.errors[0][1]} raised {u.errors[0][2]}')
            want.append(u.out)
        m, ds = self.world(ctx, plan, 'b')      # the same model again, not used yet
        before = read_all(ds)
        us = [User(m, ds, dict(plan, rows=rows), s) for s in plan['scripts']]
        n0 = seams.STATS.get('fault_sql', 0)
        if plan['fail']:
            seams.arm_sql({plan['fail'][0] + j: 'disk I/O error' for j in range(plan['fail'][1])})
        k.rate, k.hot = rate, hot
        k._arm()
        ts = [threading.Thread(target=u.run) for u in us]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        seams.arm_sql()
        k.rate = k.hot = 0
        k._arm()
        fired = seams.STATS.get('fault_sql', 0) - n0
        wrong = 0
        what = f'{plan["knn"]["model"] + " neighbour" if plan["knn"] else plan.get("deep") or "scripted"} model over a {plan["backend"]} dataset ' \
               f'used by {len(us)} threads'
        for u, w in zip(us, want):
            if len(u.out) != len(w):
                raise Violation('lost-thread', f'{what}: a thread ended after {len(u.out)} of {len(w)} requests')
            for s, x, y in zip(u.script, u.out, w):
                if x == y:
                    continue
                # a failing statement makes one request fail; skip_errors then yields no prediction
                if fired and wrong < fired and (x == 'failed' or (s[0] == 'predict' and x is None)):
                    wrong += 1
                    ctx.probe('request_failed')
                    continue
                e = [e for j, t, e in u.errors if t == s]
                raise Violation('wrong-result', f'{what}: {s[0]} returned {str(x)[:300]} {e[:1]}, alone it returns '
                                                f'{str(y)[:300]}')
        us = ts = None
        if read_all(ds) != before:
            raise Violation('data-changed', f'{what}: the dataset changed')
        for s, w in zip(plan['scripts'], want):         # nothing wrong is remembered
            u = User(m, ds, dict(plan, rows=rows), s)
            u.run()
            if u.out != w:
                raise Violation('wrong-result', f'{what}: afterwards {str(u.out)[:300]} {u.errors[:1]}, expected {str(w)[:300]}')
        ctx.log(want)
        ctx.state((plan['backend'], str(plan['knn'] or plan.get('deep')), str(plan['scripts']), k.signature))

    def shrink(self, plan):
        ss = plan['scripts']
        for j in range(len(ss)):
            if len(ss) > 2:
                yield dict(plan, scripts=ss[:j] + ss[j + 1:])
        for j, s in enumerate(ss):
            for x in range(len(s)):
                if len(s) > 1:
                    yield dict(plan, scripts=ss[:j] + [s[:x] + s[x + 1:]] + ss[j + 1:])
        if plan['view']:
            yield dict(plan, view=None)
        rows = plan['rows']
        for s in range(len(rows) - 1, 0, -1):
            if len(rows) > 3:
                yield dict(plan, rows=rows[:s] + rows[s + 1:])


PROP = S16()
