import gc
import math
import threading

from .. import seams
from ..base import Prop, gen_sched
from ..dsmodel import gen_table, norm
from ..harness import Violation
from ..models import (factor_model, fit_deep, fits_deep, gen_deep, gen_deep_rows, gen_knn, make_deep, make_knn, scripted, value)
from ..runner import gen_knobs, load, set_knobs, short

TOL = 1e-5


def unknown(xs):
    return 'nobody' if isinstance(xs[0], str) else 987654


def near(a, b):
    return a is None and b is None or (a is not None and b is not None and abs(a - b) <= TOL * max(1.0, abs(a), abs(b)))


class Asker:
    def __init__(self, m, ds, script):
        self.m, self.ds, self.script, self.out = m, ds, script, []

    def run(self):
        for r in self.script:
            try:
                self.out.append(['ok', self.one(r)])
            except Exception as e:
                self.out.append(['raised', short(e)])

    def one(self, r):
        m = self.m
        if r[0] == 'predict':
            x = m.predict(r[1], r[2], skip_errors=r[3])
            return None if x is None else float(x)
        if r[0] == 'recommend':
            kw = {} if r[4] is None else {'interaction_threshold': r[4]}
            out = m.recommend(r[1], n=r[2], novelty=r[3], **kw)
        elif r[0] == 'rank':
            kw = {} if r[3] is None else {'n': r[3]}
            items = list(r[2])
            out = m.rank(r[1], items, novelty=r[4], skip_invalid_items=r[5], **kw)
            if items != r[2]:
                raise Violation('arguments-changed', f'{r} changed the list it was given')
        else:
            if r[0] == 'select':
                list(self.ds.select(f'interaction > {r[1]}').values())
            elif r[0] == 'collect':
                gc.collect()
            else:
                self.ds.unique('user').values_list()
            return None
        return [[float(s), norm(i)] for s, i in out]


class S24(Prop):
    ID = 'S24'
    RUNS = {'quick': 1500, 'thorough': 40000}
    WALL = {'quick': 150.0, 'thorough': 1800.0}
    RULE = ('one evaluation = the requests of one to three threads to one fitted model; a distinct case is a distinct (model, '
            'dataset view, requests, schedule signature)')
    REAL = ['DRecPy.Recommender.RecommenderABC (predict, rank, recommend)', 'DRecPy nearest-neighbour and deep recommenders',
            'DRecPy.Dataset (both backends)', 'SQLite', 'pandas', 'TensorFlow (part of the runs)']
    STUB = ['threads, locks and clock (simulated scheduler)', 'statement failures (SQLite API seam)', 'scripted scoring function '
            '(part of the runs)']
    ASSUMPTIONS = ['one record per pair of user and item', 'equal scores may come in any order', 'users and items filtered out of a '
                   'view before the fit are not requested', 'scores compared with tolerance 1e-5']

    def gen(self, rng, tier, i):
        cols, rows, types = gen_table(rng, max_rows=rng.choice([6, 12, 20]), min_rows=4, dup=False, extra=rng.random() < 0.3,
                                      interactions=[1, 2, 3, 4, 5])
        kind = rng.choice(['knn'] * 6 + ['scripted'] * 4 + ['factors'])
        plan = {'backend': rng.choice(['mem', 'db']), 'columns': cols, 'rows': rows, 'knobs': gen_knobs(rng), 'kind': kind,
                'knn': gen_knn(rng) if kind == 'knn' else None, 'salt': rng.randrange(100), 'holes': rng.choice([0, 20, 60]),
                'view': rng.choice([None, None, ['>', 1], ['<', 5], ['!=', 3]]), 'ids': rng.random() < 0.2, 'copy': rng.random() < 0.5,
                'before': rng.random() < 0.25, 'deep': None, 'fail': None, 'sched': gen_sched(rng)}
        if rng.random() < 0.08:
            plan.update(deep=dict(gen_deep(rng), epochs=1), kind='deep', knn=None, view=None)
            plan['columns'], plan['rows'] = gen_deep_rows(rng)
            rows = plan['rows']
        users, items = sorted({r[0] for r in rows}, key=str), sorted({r[1] for r in rows}, key=str)
        n = rng.choice([1, 1, 2, 3])
        ops = ['predict', 'predict', 'recommend', 'recommend', 'rank', 'rank', 'rank', 'select', 'collect', 'unique']
        plan['scripts'] = []
        for _ in range(n):
            s = []
            for _ in range(rng.choice([2, 4, 8]) if n == 1 else rng.choice([1, 2, 4])):
                op = rng.choice(ops)
                u = rng.choice(users) if rng.random() < 0.93 else unknown(users)
                if op == 'predict':
                    s.append([op, u, rng.choice(items) if rng.random() < 0.9 else unknown(items), rng.random() < 0.5])
                elif op == 'recommend':
                    s.append([op, u, rng.choice([None, None, 1, 2, 3, 100]), rng.random() < 0.6,
                              rng.choice([None, None, 0, 1, 2.5, 3, 4])])
                elif op == 'rank':
                    xs = rng.sample(items, rng.randint(1, len(items)))
                    skip = True
                    if rng.random() < 0.15:
                        xs.insert(rng.randint(0, len(xs)), unknown(items))
                        skip = rng.random() < 0.6
                    s.append([op, u, xs, rng.choice([None, None, 1, 2]), rng.random() < 0.5, skip])
                else:
                    s.append([op, rng.randint(0, 5)])
            plan['scripts'].append(s)
        if plan['backend'] == 'db' and rng.random() < 0.25:
            plan['fail'] = [rng.randint(1, 80), rng.choice([1, 1, 2])]
        return plan

    def world(self, ctx, plan):
        """The fitted model, the dataset and the records it was fitted on."""
        set_knobs(plan['knobs'])
        ds = load(ctx, plan['backend'], plan['columns'], plan['rows'], 'a', knobs=plan['knobs'])
        rows = plan['rows']
        if plan['ids']:
            ds.assign_internal_ids()
        if plan['view']:
            op, v = plan['view']
            kept = [r for r in rows if {'>': r[2] > v, '<': r[2] < v, '!=': r[2] != v}[op]]
            if len(kept) >= 3:
                ds, rows = ds.select(f'interaction {op} {v}'), kept
        m = self.model(plan)
        if plan['before']:          # another fit of the same object before
            self.fit(plan, m, load(ctx, 'mem', plan['columns'], plan['rows'][::-1], 'b', knobs=plan['knobs']), True)
            for u in sorted({r[0] for r in rows}, key=str):         # and what it may remember of it
                m.recommend(u, n=2)
                m.rank(u, sorted({r[1] for r in rows}, key=str), novelty=True)
        self.fit(plan, m, ds, plan['copy'])
        return m, ds, rows

    def model(self, plan):
        if plan['kind'] == 'knn':
            return make_knn(plan['knn'])
        if plan['kind'] == 'deep':
            return make_deep(plan['deep'])
        if plan['kind'] == 'factors':
            return factor_model()(seed=3, verbose=False)
        return scripted()(salt=plan['salt'], holes=plan['holes'], verbose=False)

    def fit(self, plan, m, ds, copy):
        if plan['kind'] == 'deep':
            fit_deep(m, plan['deep'], ds, copy)
        elif plan['kind'] == 'factors':
            m.fit(ds, copy_dataset=copy, epochs=2, batch_size=2, neg_ratio=0, learning_rate=0.05)
        else:
            m.fit(ds, copy_dataset=copy)

    def execute(self, ctx, plan):
        if plan['deep'] and not fits_deep(plan['deep'], plan['rows']):
            return
        k = ctx.k
        rate, hot = k.rate, k.hot
        k.rate = k.hot = 0
        k._arm()
        m, ds, rows = self.world(ctx, plan)
        users, items = sorted({r[0] for r in rows}, key=str), sorted({r[1] for r in rows}, key=str)
        what = f'{plan["knn"] or plan["deep"] or plan["kind"]} model over a {plan["backend"]} dataset'
        table = self.table(plan, m, users, items, what)
        if table is None:
            ctx.probe('not_a_number')
            return
        rated = {u: {r[1] for r in rows if r[0] == u} for u in users}
        gone = ({r[0] for r in plan['rows']} - set(users)) | ({r[1] for r in plan['rows']} - set(items))
        scripts = []
        for s in plan['scripts']:
            out = []
            for r in s:
                if r[0] in ('predict', 'recommend', 'rank') and r[1] in gone or r[0] == 'predict' and r[2] in gone:
                    continue
                if r[0] == 'rank':
                    r = r[:2] + [[x for x in r[2] if x not in gone]] + r[3:]
                    if not r[2] or (r[3] is not None and r[3] > len([x for x in r[2] if x in items])):
                        continue
                if r[0] == 'recommend' and r[4] is not None and r[1] in users and any(
                        p is not None and p != r[4] and near(p, r[4]) for p in table[r[1]].values()):
                    r = r[:4] + [None]
                out.append(r)
            scripts.append(out)
        us = [Asker(m, ds, s) for s in scripts]
        n0 = seams.STATS.get('fault_sql', 0)
        if plan['fail']:
            seams.arm_sql({plan['fail'][0] + j: 'disk I/O error' for j in range(plan['fail'][1])})
        k.rate, k.hot = rate, hot
        k._arm()
        if len(us) == 1:
            us[0].run()
        else:
            ts = [threading.Thread(target=u.run) for u in us]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
            ts = None
        seams.arm_sql()
        k.rate = k.hot = 0
        k._arm()
        fired, failed = seams.STATS.get('fault_sql', 0) - n0, 0
        for u in us:
            if len(u.out) != len(u.script):
                raise Violation('lost-thread', f'{what}: a thread ended after {len(u.out)} of {len(u.script)} requests')
            for r, (status, x) in zip(u.script, u.out):
                e = self.judge(plan, r, status, x, table, items, rated)
                if e and failed < fired and (status == 'raised' or (r[0] == 'predict' and r[3] and x is None)):
                    failed += 1
                    ctx.probe('request_failed')
                    continue
                if e:
                    raise Violation('wrong-answer', f'{what}, {len(us)} threads: {r} {"raised" if status == "raised" else "returned"} '
                                                    f'{str(x)[:300]}: {e}')
                ctx.probe('request_' + r[0])
        if self.table(plan, m, users, items, what) != table:
            raise Violation('wrong-answer', f'{what}: predictions changed after {scripts}')
        ctx.log([u.out for u in us])
        ctx.state((plan['backend'], str(plan['knn'] or plan['deep'] or plan['kind']), plan['view'], plan['copy'], str(scripts),
                   k.signature))

    def table(self, plan, m, users, items, what):
        """The score of every pair, requested one at a time; None if there is one that is not a number."""
        out = {}
        for u in users:
            out[u] = {}
            for i in items:
                try:
                    if plan['kind'] == 'deep' and plan['deep']['model'] == 'caser':
                        p = m.rank(u, [i], novelty=False)[0][0]
                    else:
                        p = m.predict(u, i, skip_errors=True)
                    p = None if p is None else float(p)
                except Exception as e:
                    raise Violation('exception', f'{what}: the prediction of {u}, {i} raised {short(e)}')
                if p is not None and math.isnan(p):
                    return None
                if plan['kind'] == 'scripted':
                    d = m.interaction_dataset
                    if not near(p, value(d.user_to_uid(u), d.item_to_iid(i), plan['salt'], plan['holes'])):
                        raise Violation('wrong-answer', f'{what}: predict({u}, {i}) is {p}')
                out[u][i] = p
        return out

    def judge(self, plan, r, status, x, table, items, rated):
        """What is wrong with an answer, or None."""
        op, u = r[0], r[1]
        if op not in ('predict', 'recommend', 'rank'):
            return 'it has to work' if status == 'raised' else None
        known = u in table
        if op == 'predict':
            want = table[u].get(r[2]) if known else None
            if plan['kind'] == 'deep' and plan['deep']['model'] == 'caser':
                want = None         # it only ranks
            if want is None and not r[3]:
                return None if status == 'raised' else 'there is nothing to predict'
            return None if status == 'ok' and near(x, want) else f'expected {want}'
        if not known:
            return None if status == 'raised' else 'the user is unknown'
        if op == 'rank' and not r[5] and any(i not in items for i in r[2]):
            return None if status == 'raised' else 'an item is unknown'
        if status == 'raised':
            return 'it has to work'
        novelty = r[3] if op == 'recommend' else r[4]
        pool = items if op == 'recommend' else [i for i in r[2] if i in items]
        n = r[2] if op == 'recommend' else r[3]
        scores = {norm(i): table[u][i] for i in pool if table[u][i] is not None and not (novelty and i in rated[u])}
        best = sorted(scores.values(), reverse=True)[:len(pool) if n is None else n]
        if op == 'recommend' and r[4] is not None:
            best = [s for s in best if s >= r[4]]
        if len({i for _, i in x}) != len(x):
            return 'an item occurs twice'
        for s, i in x:
            if i not in scores:
                return f'item {i!r} does not belong there'
            if not near(s, scores[i]):
                return f'item {i!r} has the score {scores[i]}'
        if len(x) != len(best) or not all(near(s, b) for (s, _), b in zip(x, best)):
            return f'the best scores are {best[:20]}'

    def shrink(self, plan):
        ss = plan['scripts']
        for j in range(len(ss)):
            if len(ss) > 1:
                yield dict(plan, scripts=ss[:j] + ss[j + 1:])
        for j, s in enumerate(ss):
            for x in range(len(s)):
                if len(s) > 1:
                    yield dict(plan, scripts=ss[:j] + [s[:x] + s[x + 1:]] + ss[j + 1:])
        for k, v in (('view', None), ('before', False), ('ids', False), ('fail', None)):
            if plan[k]:
                yield dict(plan, **{k: v})
        rows = plan['rows']
        for s in range(len(rows) - 1, 0, -1):
            if len(rows) > 3:
                yield dict(plan, rows=rows[:s] + rows[s + 1:])


PROP = S24()
