import random
import sys

from ..base import Prop, gen_sched
from ..dsmodel import gen_table, model_of, norm, norm_row
from ..harness import Violation
from ..models import answers, fit_deep, fits_deep, gen_deep, gen_deep_rows, make_deep, scripted
from ..runner import gen_knobs, load, set_knobs, short
from .s09 import plain, run_split


def gen_requests(rng, strings):
    out = []
    for _ in range(rng.choice([1, 2, 3, 4, 6])):
        kind = rng.choice(['split', 'split', 'point', 'list', 'rand', 'null', 'eval'])
        seed = rng.choice([0, 1, 7, 99, 12345])
        if kind == 'split':
            sk = rng.choice(['leave_k', 'leave_ratio', 'random', 'matrix'])
            a = {'seed': seed}
            if sk == 'leave_k':
                a['k'] = rng.choice([1, 2])
            elif sk == 'leave_ratio':
                a['k'] = rng.choice([0.25, 0.5])
            elif sk == 'random':
                a['test_ratio'] = rng.choice([0.25, 0.5])
            else:
                a['user_test_ratio'] = a['item_test_ratio'] = rng.choice([0.5, 0.8])
            out.append(['split', sk, a])
        elif kind == 'point':
            ops = [rng.choice(['sample', 'sample_one', 'pos', 'neg']) for _ in range(rng.randint(1, 5))]
            out.append(['point', {'neg_ratio': rng.choice([0, 1, 3]), 'interaction_threshold': rng.choice([None, 2, 3]),
                                  'seed': seed}, ops])
        elif kind == 'list':
            out.append(['list', {'group_columns': rng.choice([['uid'], ['user'], ['iid'], ['uid', 'iid']]),
                                 'neg_ratio': rng.choice([1, 2]), 'n_targets': rng.choice([None, 1, 2]),
                                 'negative_ids_col': rng.choice(['iid', 'item', 'uid', 'user']),
                                 'interaction_threshold': rng.choice([None, 2]),
                                 'min_positive_records': 1, 'max_positive_records': rng.choice([None, 2, 3]),
                                 'sort_column': rng.choice([None, 'interaction']),
                                 'seed': seed}, rng.randint(1, 6)])
        elif kind == 'rand':
            out.append(['rand', rng.choice([None, 'interaction > 2', 'interaction >= 1']), seed, rng.randint(1, 12)])
        elif kind == 'null':
            out.append(['null', rng.choice([None, 2, 3]), seed, rng.randint(1, 12)])
        else:
            a = {'seed': seed, 'k': rng.choice([1, 2, 3]), 'interaction_threshold': 2,
                 'n_pos_interactions': rng.choice([None, 1]), 'n_neg_interactions': rng.choice([None, 1, 2])}
            if a['n_neg_interactions'] and not strings:
                a['generate_negative_pairs'] = rng.random() < 0.5
            out.append(['eval', rng.choice(['ranking', 'recommendation']), a, rng.randrange(100)])
    if rng.random() < 0.06:
        p = gen_deep(rng)
        p['epochs'] = min(p['epochs'], 3)
        out.insert(rng.randint(0, len(out)), ['deep', p, gen_deep_rows(rng)[1]])
    return out


def clean(x):
    if isinstance(x, dict):
        return sorted((k, clean(v)) for k, v in x.items())
    if isinstance(x, (list, tuple)):
        return [clean(v) for v in x]
    return norm(x)


class Request:
    """One seeded request, executed step by step so that requests can be interleaved; `out` is its result."""

    def __init__(self, ds, req, threads, noise=None):
        self.ds, self.req, self.threads, self.noise = ds, req, threads, noise or (lambda: None)
        self.out, self.done, self.gen = [], False, self.steps()

    def step(self):
        try:
            next(self.gen)
        except StopIteration:
            self.done = True

    def steps(self):
        from DRecPy.Evaluation import Metrics
        from DRecPy.Evaluation.Processes import ranking_evaluation, recommendation_evaluation
        from DRecPy.Sampler import ListSampler, PointSampler
        r, ds = self.req, self.ds
        if r[0] == 'split':
            a = dict(r[2], verbose=False)
            if r[1] != 'random':
                a['max_concurrent_threads'] = self.threads
            tr, te = run_split(r[1], ds, a)
            yield
            self.out = [sorted(plain(tr)), sorted(plain(te))]
        elif r[0] == 'point':
            s = PointSampler(ds, **r[1])
            yield
            for op in r[2]:
                self.out.append(s.sample(4) if op == 'sample' else s.sample_one() if op == 'sample_one' else
                                s.sample_positive() if op == 'pos' else s.sample_negative())
                yield
        elif r[0] == 'list':
            s = ListSampler(ds, **dict(r[1]))
            yield
            for _ in range(r[2]):
                try:
                    self.out.append(s.sample_group_records(2))
                except Exception as e:
                    if 'max consecutive tries' not in str(e):
                        raise
                    self.out.append('gave up')
                yield
        elif r[0] == 'rand':
            try:
                g = ds.select_random_generator(r[1], seed=r[2])
                yield
                for _ in range(r[3]):
                    self.out.append(next(g))
                    yield
            except AssertionError as e:
                self.out.append(str(e))
        elif r[0] == 'null':
            g = ds.null_interaction_pair_generator(interaction_threshold=r[1], seed=r[2])
            yield
            for _ in range(r[3]):
                self.out.append(next(g))
                yield
        elif r[0] == 'deep':
            import pandas as pd
            from DRecPy.Dataset import InteractionDataset
            p, rows = r[1], r[2]
            if not fits_deep(p, rows):
                return
            d = InteractionDataset.read_df(pd.DataFrame(rows, columns=['user', 'item', 'interaction', 'timestamp']), verbose=False)
            m = make_deep(p)
            yield

            def callback(model):
                self.noise()
                self.out.append(answers(model, {'rows': rows}))
                return {'M': 0}
            fit_deep(m, p, d, copy=True, epoch_callback_fn=callback, epoch_callback_freq=1)
            yield
            self.out.append(answers(m, {'rows': rows}))
        else:
            m = scripted()(salt=r[3], holes=0, verbose=False)
            m.fit(ds, copy_dataset=True)
            yield
            fn = ranking_evaluation if r[1] == 'ranking' else recommendation_evaluation
            a = {k: v for k, v in r[2].items() if v is not None and
                 not (r[1] == 'recommendation' and k in ('n_neg_interactions', 'generate_negative_pairs'))}
            self.out = fn(m, ds, metrics=[Metrics.Precision(), Metrics.NDCG(), Metrics.DCG()], verbose=False,
                          max_concurrent_threads=self.threads, **a)


class S12(Prop):
    ID = 'S12'
    RUNS = {'quick': 1200, 'thorough': 30000}
    WALL = {'quick': 150.0, 'thorough': 1800.0}
    TWIN = {'quick': 600, 'thorough': 6000}         # runs repeated in an interpreter with another hash seed
    RULE = ('one evaluation = a set of seeded requests executed twice in different surroundings; a distinct case is a '
            'distinct (requests, surroundings, schedule signature)')
    REAL = ['DRecPy.Sampler', 'DRecPy.Evaluation.Splits', 'DRecPy.Evaluation.Processes', 'DRecPy.Dataset (both backends)',
            'DRecPy.Recommender CDAE, DMF and Caser (part of the runs)', 'SQLite', 'pandas', 'TensorFlow (eager, CPU)']
    STUB = ['thread pool, threads, locks and clock (simulated scheduler)', 'global random generators (seeded by the '
            'simulator, differently for each execution)', 'scripted scoring function']
    ASSUMPTIONS = ['the data and its order, the backend and the arguments are the same in both executions',
                   'hash randomisation: two hash seeds are compared']

    def gen(self, rng, tier, i):
        strings = rng.random() < 0.5
        nu, ni = rng.randint(2, 7), rng.randint(4, 9)
        cols, rows, types = gen_table(rng, max_rows=min(30, nu * ni // 2), min_rows=4, dup=False, strings=strings,
                                      n_users=nu, n_items=ni, contiguous=not strings)
        plan = {'backend': rng.choice(['mem', 'db']), 'columns': cols, 'rows': rows, 'knobs': gen_knobs(rng),
                'reqs': gen_requests(rng, strings), 'threads': rng.choice([1, 2, 4, 8]),
                'noise': rng.choice([0, 0.2, 0.5, 0.8]), 'order': rng.getrandbits(32),
                'sched': gen_sched(rng)}
        return plan

    def possible(self, plan):
        """Pairs without a record must exist (the samplers of missing pairs look for one forever otherwise)."""
        rows = plan['rows']
        nu, ni = len({r[0] for r in rows}), len({r[1] for r in rows})
        return len(rows) < nu * ni and nu > 1 and ni > 1 and any(r[2] >= 3 for r in rows)

    def world(self, ctx, plan, name):
        set_knobs(plan['knobs'])
        ds = load(ctx, plan['backend'], plan['columns'], plan['rows'], name, knobs=plan['knobs'])
        ds.assign_internal_ids()
        return ds

    def execute(self, ctx, plan):
        import numpy as np
        if not self.possible(plan):
            return
        # surroundings A: one request after the other, one worker, nothing else going on
        k = ctx.k
        rate, k.rate = k.rate, 0.0
        k._arm()
        st, nst = random.getstate(), np.random.get_state()[1].tolist()
        ds = self.world(ctx, plan, 'a')
        first = []
        for r in plan['reqs']:
            q = Request(ds, r, 1)
            self.drive(q, r)
            first.append(clean(q.out))
        if random.getstate() != st or np.random.get_state()[1].tolist() != nst:
            raise Violation('shared-generator', 'seeded requests changed the state of the global random generator: '
                            f'{plan["reqs"]}')
        # surroundings B: other global generator state, requests interleaved with each other and with unrelated work,
        # several workers
        k.rate = rate
        k._arm()
        order = random.Random(plan['order'])
        random.seed(order.random())
        np.random.seed(order.getrandbits(31))
        ds2 = self.world(ctx, plan, 'b')
        other = self.world(ctx, plan, 'c')

        def meanwhile():
            if plan['noise']:
                self.noise(order, ds2, other)
        qs = [Request(ds2, r, plan['threads'], meanwhile) for r in plan['reqs']]
        live = list(qs)
        while live:
            if order.random() < plan['noise']:
                self.noise(order, ds2, other)
            q = live[order.randrange(len(live))]
            self.drive_one(q)
            if q.done:
                live.remove(q)
        for r, a, q in zip(plan['reqs'], first, qs):
            b = clean(q.out)
            if a != b:
                raise Violation('not-reproducible', f'{r} on a {plan["backend"]} dataset gave {str(a)[:300]} and then '
                                                    f'{str(b)[:300]}')
            ctx.probe('request_' + r[0])
        ctx.result(first)
        ctx.state((plan['backend'], str(plan['reqs']), plan['threads'], k.signature))

    def drive_one(self, q):
        try:
            q.step()
        except Exception as e:
            raise Violation('exception', f'{q.req} raised {short(e)}')

    def drive(self, q, r):
        while not q.done:
            self.drive_one(q)

    def noise(self, rng, ds, other):
        kind = rng.randrange(8)
        d = rng.choice([ds, other])
        if kind == 0:
            random.random()
        elif kind == 1:
            random.seed(rng.choice([0, 1, 7]))
        elif kind == 2:
            list(d.select(f'interaction > {rng.randint(0, 4)}').values())
        elif kind == 3:
            d.unique(rng.choice(['user', 'item'])).values_list()
        elif kind == 4:
            next(d.select_random_generator())
        elif kind == 5:
            d.select_user_interaction_vec(0)
        elif kind == 6:
            tf = sys.modules.get('tensorflow')
            if tf is not None:
                tf.random.set_seed(rng.choice([0, 1, 7]))
                tf.random.uniform([2])
        else:
            d.copy().drop([0]).count_unique('item')

    def shrink(self, plan):
        rs = plan['reqs']
        for j in range(len(rs)):
            if len(rs) > 1:
                yield dict(plan, reqs=rs[:j] + rs[j + 1:])
        if plan['noise']:
            yield dict(plan, noise=0)
        if plan['threads'] > 1:
            yield dict(plan, threads=1)
        rows = plan['rows']
        for s in range(len(rows) - 1, 0, -1):
            yield dict(plan, rows=rows[:s] + rows[s + 1:])


PROP = S12()
