import random

from .. import seams
from ..base import Prop
from ..dsmodel import gen_table, model_of, norm, read_all
from ..harness import Violation
from ..models import (answers, deep_step, deep_weights, factor_model, fit_deep, fits_deep, gen_deep, gen_deep_rows, make_deep,
                      retrain)
from ..runner import gen_knobs, load, set_knobs, short

_RULE = []


class Injected(Exception):
    pass


def patience_rule():
    """A rule that really stops: when `patience` epochs passed since the best one."""
    if not _RULE:
        from DRecPy.Recommender.EarlyStopping.max_validation_value_rule import MaxValidationValueRule

        class Patience(MaxValidationValueRule):
            def __init__(self, metric, patience):
                super().__init__(metric)
                self.patience = patience

            def stop_training(self, current_epoch, best_computed_epoch, target_epoch, **kwds):
                return current_epoch - best_computed_epoch >= self.patience
        _RULE.append(Patience)
    return _RULE[0]


class S14(Prop):
    ID = 'S14'
    RUNS = {'quick': 900, 'thorough': 20000}
    WALL = {'quick': 170.0, 'thorough': 1800.0}
    RULE = ('one evaluation = a sequence of fits of one model object, some failing; a distinct case is a distinct '
            '(configuration of the fits, metric values, failures)')
    REAL = ['DRecPy.Recommender.RecommenderABC (training loop, early stopping)', 'DRecPy.Recommender CDAE, DMF and Caser',
            'DRecPy.Recommender.EarlyStopping',
            'DRecPy.Evaluation.LossTracker', 'DRecPy.Sampler.PointSampler', 'DRecPy.Dataset (both backends)',
            'TensorFlow (eager, CPU)', 'SQLite', 'pandas']
    STUB = ['the network (a two-factor matrix model written for the check) and its optimiser', 'plotting window', 'clock',
            'global random generators']
    ASSUMPTIONS = ['most runs train a small model of plain tf.Variables (retrained by an independent model), 15% one of the shipped '
                   'deep recommenders (each step compared with the gradient of the loss the recommender itself defines: the '
                   'architectures are not judged)',
                   'epoch callbacks report the same metrics at every call', 'weights compared with tolerance 1e-6 (1e-4 with the default optimiser, Adam)']

    def gen(self, rng, tier, i):
        tables = []
        for _ in range(2):
            nu, ni = rng.randint(2, 5), rng.randint(3, 6)
            cols, rows, _ = gen_table(rng, max_rows=min(12, nu * ni - 2), min_rows=4, dup=False, n_users=nu, n_items=ni,
                                      extra=False, interactions=[1, 2, 3, 4, 5])
            tables.append(rows)
        fits = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            epochs = rng.randint(1, 9)
            f = {'table': rng.randrange(2), 'epochs': epochs, 'batch': rng.choice([1, 3]),
                 'cb': rng.choice([None, 1, 1, 2, 3, 5]), 'es': rng.choice([1, 2, 3, 5]),
                 'rule': rng.choice([None, 'max', 'max', 'max', 'patience']), 'patience': rng.choice([1, 2]),
                 'values': [rng.choice([0, 1, 2, 3, 4]) + (0 if rng.random() < 0.5 else rng.random()) for _ in range(14)],
                 'metric': rng.choice(['M', 'M@3']), 'ask': rng.choice(['M', 'M', 'same', 'other']),
                 'copy': rng.random() < 0.4, 'opt': rng.choice(['own', 'own', 'forced', 'default', 'default']), 'neg': rng.choice([0, 1]),
                 'fault': rng.choice([None, None, None, 'callback', 'batch', 'sql', 'interrupt']), 'at': rng.randint(1, 6)}
            fits.append(f)
        fits[-1]['fault'] = None
        for f in fits:
            rows = tables[f['table']]
            if len(rows) >= len({r[0] for r in rows}) * len({r[1] for r in rows}):
                f['neg'] = 0                    # there is no pair without a record to draw
        deep = None
        if rng.random() < 0.15:
            deep = gen_deep(rng, exact=rng.random() < 0.7)
            tables = [gen_deep_rows(rng)[1] for _ in range(2)]
            fits = fits[:2]
            for f in fits:
                f.update(epochs=min(f['epochs'], 5), fault=rng.choice([None, None, 'callback', 'batch', 'interrupt', 'sql']))
            fits[-1]['fault'] = None
        return {'deep': deep, 'backend': rng.choice(['mem', 'db']), 'tables': tables, 'fits': fits, 'verbose': rng.random() < 0.2,
                'seed': rng.choice([0, 3, 77]), 'knobs': gen_knobs(rng), 'again': rng.random() < 0.3,
                'sched': {'rate': 0.0}}

    def execute(self, ctx, plan):
        set_knobs(plan['knobs'])
        if plan.get('deep'):
            return self.deep(ctx, plan)
        m = factor_model()(verbose=plan['verbose'], seed=plan['seed'])
        for j, f in enumerate(plan['fits']):
            self.one(ctx, plan, m, f, f'{j}', f'fit {j + 1} ({self.describe(f)})')
        if plan['again']:
            f = plan['fits'][-1]
            random.seed(plan['seed'] + 1)
            m2 = factor_model()(verbose=plan['verbose'], seed=plan['seed'])
            self.one(ctx, plan, m2, f, 'again', f'first fit of another model ({self.describe(f)})')
            if m2.noted['batches'] != m.noted['batches']:
                raise Violation('not-reproducible', f'two models with seed {plan["seed"]} were trained on different '
                                                    f'batches, {self.describe(f)}')
        ctx.state((plan['backend'], str([{k: v for k, v in f.items()} for f in plan['fits']])))

    def describe(self, f):
        return ', '.join(f'{k}={v}' for k, v in f.items() if k not in ('values',))

    def one(self, ctx, plan, m, f, name, tag):
        rows = plan['tables'][f['table']]
        deep = plan.get('deep')
        cols = ['user', 'item', 'interaction'] + ['timestamp'] * bool(deep)
        ds = load(ctx, plan['backend'], cols, rows, 'd' + name, knobs=plan['knobs'])
        calls, count = [], {'callback': 0, 'batch': 0}
        steps = []
        if deep:
            sample = type(m)._sample_batch

            def watched(*a, **k):
                maybe('batch')
                w = deep_weights(m)
                steps.append((w, sample(m, *a, **k)))
                return steps[-1][1]
            m._sample_batch = watched

        def maybe(what):
            count[what] += 1
            fault = 'callback' if f['fault'] == 'interrupt' else f['fault']
            if fault == what and count[what] == f['at']:
                ctx.fault(f'{f["fault"]}_failed')
                raise KeyboardInterrupt if f['fault'] == 'interrupt' else Injected(what)

        def callback(model):
            maybe('callback')
            if model is not m:
                raise Violation('wrong-model', f'{tag}: the callback got another model')
            v = f['values'][len(calls) % len(f['values'])]
            if deep:
                calls.append((len(steps), v, deep_weights(m)))
            else:
                calls.append((len(m.noted['batches']), v, (m.P.numpy().copy(), m.Q.numpy().copy())))
            return {f['metric']: v, 'Z': -v}

        kw = {}
        if f['cb'] is not None:
            kw.update(epoch_callback_fn=callback, epoch_callback_freq=f['cb'])
        if f['rule'] is not None:
            from DRecPy.Recommender.EarlyStopping import MaxValidationValueRule
            metric = {'M': 'M', 'same': f['metric'], 'other': 'Q'}[f['ask']]
            rule = MaxValidationValueRule(metric) if f['rule'] == 'max' else patience_rule()(metric, f['patience'])
            kw.update(early_stopping_rule=rule, early_stopping_freq=f['es'])
        rate = 0.05
        m.own = f['opt'] != 'default'
        if f['opt'] == 'forced':
            rate = 0.02
            kw['optimizer'] = factor_model().Descent(rate)
        m.fail = maybe
        before = seams.STATS.get('fault_sql', 0)
        if f['fault'] == 'sql' and plan['backend'] == 'db':
            seams.arm_sql({f['at'] * 7: 'disk I/O error'})
        err = None
        try:
            if deep:
                fit_deep(m, deep, ds, f['copy'], epochs=f['epochs'], **kw)
            else:
                m.fit(ds, epochs=f['epochs'], batch_size=f['batch'], learning_rate=0.05, neg_ratio=f['neg'],
                      copy_dataset=f['copy'], **kw)
        except Violation:
            raise
        except BaseException as e:
            if type(e).__module__.startswith('dst'):
                if not isinstance(e, Injected):
                    raise
            err = short(e)
        seams.arm_sql()
        m.fail = None
        if deep:
            del m._sample_batch
        fired = seams.STATS.get('fault_sql', 0) > before or (f['fault'] in ('callback', 'batch', 'interrupt') and
                count['batch' if f['fault'] == 'batch' else 'callback'] >= f['at'])
        got = {r: {c: v for c, v in x.items() if c in cols} for r, x in read_all(ds).items()}
        if got != model_of(cols, rows).rows:
            raise Violation('data-changed', f'{tag} changed the records of the dataset')
        if f['copy'] and ('uid' in ds.columns or ds.has_internal_ids):
            raise Violation('data-changed', f'{tag} with copy_dataset changed the dataset itself')
        if err is not None:
            if not fired:
                raise Violation('exception', f'{tag} raised {err}')
            ctx.probe('fit_failed')
            return
        if fired and f['fault'] != 'sql':       # a statement may fail where it does not matter (clean-up)
            raise Violation('swallowed', f'{tag}: a failure during training was not reported')
        if deep:
            self.verify_deep(ctx, plan, m, f, tag, rows, calls, steps, rate)
        else:
            self.verify(ctx, plan, m, f, tag, rows, calls, rate)
        ctx.probe('fits')

    def deep(self, ctx, plan):
        """One of the shipped deep recommenders."""
        p = plan['deep']
        if not all(fits_deep(p, plan['tables'][f['table']]) for f in plan['fits']):
            return
        m = make_deep(p, verbose=plan['verbose'])
        for j, f in enumerate(plan['fits']):
            self.one(ctx, plan, m, f, f'{j}', f'fit {j + 1} of {p} ({self.describe(f)})')
        f = plan['fits'][-1]
        rows = plan['tables'][f['table']]
        m2 = make_deep(p, verbose=plan['verbose'])
        self.one(ctx, plan, m2, f, 'again', f'first fit of another {p} ({self.describe(f)})')
        a, b = answers(m, {'rows': rows}), answers(m2, {'rows': rows})
        if a != b:
            raise Violation('not-reproducible', f'{p}, {self.describe(f)}: a new model answers {[y for x, y in zip(a, b) if x != y][:1]}'
                                                f', one fitted before answers {[x for x, y in zip(a, b) if x != y][:1]}')
        ctx.probe('deep_' + p['model'])
        ctx.state((plan['backend'], str(p), str(plan['fits'])))

    def verify_deep(self, ctx, plan, m, f, tag, rows, calls, steps, rate):
        import numpy as np
        p = plan['deep']
        final, n = deep_weights(m), len(steps)
        states = {e: w for e, (w, _) in enumerate(steps)}

        def same(a, b, atol=1e-7):
            return len(a) == len(b) and all(x.shape == y.shape and np.allclose(x, y, atol=atol) for x, y in zip(a, b))
        for e, v, w in calls:
            if not same(states.setdefault(e, w), w):
                raise Violation('wrong-weights', f'{tag}: the weights changed between two steps (epoch {e})')
        usable = f['rule'] is not None and f['cb'] is not None and f['ask'] != 'other' and len(calls) > 0
        want, best = self.outcome(f, calls, usable)
        if n != want:
            raise Violation('wrong-epochs', f'{tag}: trained for {n} epochs, expected {want}')
        if f['opt'] == 'forced' and not p.get('corruption') and not p.get('dropout'):
            for e, (w, batch) in enumerate(steps):
                nxt = states.get(e + 1, final if best is None and e + 1 == n else None)
                if nxt is None:
                    continue
                got = deep_step(m, p, batch, w, rate)
                if not same(got, nxt, 1e-5):
                    raise Violation('wrong-weights', f'{tag}: step {e + 1} is not the gradient step of its batch')
                ctx.probe('deep_steps_checked')
        target = best if best is not None else n
        if target in states and not same(final, states[target]):
            raise Violation('wrong-weights', f'{tag}: {plan["backend"]} dataset, verbose={plan["verbose"]}: the final weights are those '
                                             f'of epoch {[e for e in sorted(states) if same(final, states[e])]}, expected epoch '
                                             f'{target} (callback results {[(e, round(v, 2)) for e, v, _ in calls]})')
        vs = list(m.trainable_weights) + [v for x in m.trainable_layers + m.trainable_models for v in x.trainable_weights]
        for v, w in zip(vs, final):         # deep_step used the model's variables
            v.assign(w)
        if final and target != n:
            ctx.probe('reverted')
        users, items = {r[0] for r in rows}, {r[1] for r in rows}
        if (m.n_users, m.n_items, m.n_rows) != (len(users), len(items), len(rows)):
            raise Violation('wrong-state', f'{tag}: {m.n_users} users, {m.n_items} items, {m.n_rows} records')

    def outcome(self, f, calls, usable):
        """Number of epochs, and the epoch whose weights are kept (None: the last)."""
        best = None
        if usable:
            top = max(v for _, v, _ in calls)
            best = [e for e, v, _ in calls if v == top][0]
        if f['rule'] == 'patience' and usable:
            for e in range(1, f['epochs'] + 1):
                if e % f['es'] == 0:
                    c = [(x, v) for x, v, _ in calls if x <= e]
                    if c:
                        t = max(v for _, v in c)
                        b = [x for x, v in c if v == t][0]
                        if e - b >= f['patience']:
                            return e, best
        return f['epochs'], best

    def verify(self, ctx, plan, m, f, tag, rows, calls, rate):
        import numpy as np
        w = retrain(m.noted, rate, adam=f['opt'] == 'default')
        n = len(w) - 1

        atol = 1e-4 if f['opt'] == 'default' else 1e-6      # Keras computes its rates in single precision

        def same(a, b):
            return a[0].shape == b[0].shape and a[1].shape == b[1].shape and \
                np.allclose(a[0], b[0], atol=atol) and np.allclose(a[1], b[1], atol=atol)

        for e, v, seen in calls:
            if not same(seen, w[e]):
                raise Violation('wrong-weights', f'{tag}: after {e} batches the callback saw other weights than {e} '
                                                 f'gradient steps yield')
        usable = f['rule'] is not None and f['cb'] is not None and f['ask'] != 'other' and len(calls) > 0
        want, best = self.outcome(f, calls, usable)
        if n != want:
            raise Violation('wrong-epochs', f'{tag}: trained for {n} epochs, expected {want}')
        final = best if best is not None else n
        have = (m.P.numpy(), m.Q.numpy())
        if not same(have, w[final]):
            match = [e for e in range(n + 1) if same(have, w[e])]
            raise Violation('wrong-weights', f'{tag}: {plan["backend"]} dataset, verbose={plan["verbose"]}: the weights are '
                                             f'those of epoch {match}, expected epoch {final} (callback results '
                                             f'{[(e, round(v, 2)) for e, v, _ in calls]})')
        if final != n:
            ctx.probe('reverted')
        users, items = {r[0] for r in rows}, {r[1] for r in rows}
        if (m.n_users, m.n_items, m.n_rows) != (len(users), len(items), len(rows)):
            raise Violation('wrong-state', f'{tag}: {m.n_users} users, {m.n_items} items, {m.n_rows} records')
        ds = m.interaction_dataset
        for u in list(users)[:2]:
            for i in list(items)[:2]:
                p = m.predict(u, i)
                e = float(np.dot(w[final][0][int(ds.user_to_uid(u))], w[final][1][int(ds.item_to_iid(i))]))
                if abs(p - e) > atol * 10:
                    raise Violation('wrong-weights', f'{tag}: prediction {p}, expected {e}')

    def shrink(self, plan):
        fs = plan['fits']
        for j in range(len(fs)):
            if len(fs) > 1:
                yield dict(plan, fits=fs[:j] + fs[j + 1:])
        if plan['again']:
            yield dict(plan, again=False)
        if plan['verbose']:
            yield dict(plan, verbose=False)
        for j, f in enumerate(fs):
            if f['epochs'] > 1:
                for e in (f['epochs'] // 2, f['epochs'] - 1):
                    yield dict(plan, fits=fs[:j] + [dict(f, epochs=e)] + fs[j + 1:])


PROP = S14()
