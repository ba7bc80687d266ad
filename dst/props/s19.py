import random

from ..base import Prop
from ..dsmodel import gen_table, read_all
from ..harness import Violation
from ..kernel import SimAbort
from ..models import answers, factor_model, fit_deep, fits_deep, gen_deep, gen_knn, make_deep, make_knn, scripted
from ..runner import OpFailed, Runner, gen_history, gen_knobs, load, set_knobs, short
from .s04 import Fault

IN_PLACE = ('select', 'drop', 'unique')


class Fitted:
    __slots__ = ('m', 'cfg', 'sid', 'pairs', 'want', 'broken', 'tag')


def close(a, b):
    """Same answers up to rounding."""
    if type(a) in (list, tuple) and type(b) in (list, tuple):
        return len(a) == len(b) and all(close(x, y) for x, y in zip(a, b))
    if isinstance(a, float) and isinstance(b, float):
        return abs(a - b) <= 1e-6 * max(1.0, abs(a), abs(b))
    return a == b


def frame(cols, rows):
    """The records newly loaded; not through a text file, where the types would be guessed again from fewer records."""
    import pandas as pd
    from DRecPy.Dataset import InteractionDataset
    return InteractionDataset.read_df(pd.DataFrame({c: [r[j] for r in rows] for j, c in enumerate(cols)}), verbose=False)


class S19(Prop):
    ID = 'S19'
    RUNS = {'quick': 1200, 'thorough': 40000}
    WALL = {'quick': 170.0, 'thorough': 1800.0}
    RULE = ('one evaluation = one history of dataset operations, fits and requests, some fits hit by a fault; a distinct case '
            'is a distinct history of (operation, backend, model kind, fault, outcome)')
    REAL = ['DRecPy.Recommender.RecommenderABC', 'DRecPy nearest-neighbour recommenders, CDAE and DMF', 'DRecPy.Dataset (both backends)',
            'SQLite', 'pandas', 'TensorFlow (part of the runs)']
    STUB = ['statement, disk and allocation failures', 'garbage-collection timing (explicit operation)', 'clock',
            'scripted scoring function and two-factor model (part of the runs)']
    ASSUMPTIONS = ['a dataset handed to fit without copy_dataset belongs to the model: it is read, copied and dropped, but not '
                   'modified in place or closed while the model is in use', 'equal scores may come in any order',
                   'neighbour models with at least as many neighbours as users or items are compared with a model fitted on a '
                   'freshly loaded dataset, up to rounding']

    def gen(self, rng, tier, i):
        backends = rng.choice([['db'], ['mem'], ['mem', 'db']])

        def table(r):
            return gen_table(r, max_rows=r.choice([6, 12, 18]), min_rows=4, dup=False, n_users=r.randint(2, 5),
                             n_items=r.randint(2, 6), extra=r.random() < 0.3, interactions=[1, 2, 3, 4, 5])

        ops, _, _ = gen_history(rng, rng.choice([8, 14, 22]), backends, audit_p=0.0, table=table,
                                extra=['ids'] * 1 + ['apply'] * 2 + ['vec'] + ['close'])
        n = rng.choice([1, 2, 2, 3, 4])
        kinds = ['deep', 'deep', 'knn', 'scripted'] if rng.random() < 0.12 else rng.choice([['knn'], ['knn'], ['knn', 'scripted'], ['factors', 'knn', 'scripted']])
        for j in range(n + rng.choice([0, 0, 1, 2])):
            at = rng.randint(1, len(ops))
            live, gone = [], set()
            for o in ops[:at]:
                if 'dst' in o:
                    live.append(o['dst'])
                if o['op'] == 'close':
                    gone.add(o['src'])
            live = [x for x in live if x not in gone]
            if not live:
                continue
            f = {'op': 'fit', 'mid': rng.randrange(n), 'src': rng.choice(live), 'copy': rng.random() < 0.6, 'fault': None}
            f['cfg'] = self.gen_model(rng, rng.choice(kinds))
            if rng.random() < 0.25:
                f['fault'] = {'kind': 'sql', 'n': rng.choice([1, 3, 5, 8, 12, 20, 30, 50, 80, 120]),
                              'msg': rng.choice(['disk I/O error', 'database or disk is full'])}
                if rng.random() < 0.4:
                    f['fault'] = {'kind': 'mem', 'site': 'csr', 'which': [rng.choice([1, 1, 2])]}
            ops.insert(at, f)
        for j in range(rng.choice([1, 3, 5])):
            ops.insert(rng.randint(1, len(ops)), {'op': 'ask', 'mid': rng.randrange(n), 'tail': rng.random() < 0.3})
        for j in range(rng.choice([0, 0, 1])):
            ops.insert(rng.randint(1, len(ops)), {'op': 'forget', 'mid': rng.randrange(n)})
        return {'ops': ops, 'knobs': gen_knobs(rng)}

    def gen_model(self, rng, kind):
        if kind == 'knn':
            return dict(gen_knn(rng), kind='knn')
        if kind == 'scripted':
            return {'kind': 'scripted', 'salt': rng.randrange(100), 'holes': rng.choice([0, 20])}
        if kind == 'deep':
            p = dict(gen_deep(rng, ['cdae', 'dmf']), kind='deep')
            p['epochs'] = min(p['epochs'], 2)
            return p
        return {'kind': 'factors', 'seed': rng.choice([0, 7]), 'epochs': rng.choice([1, 2, 3]), 'neg': 0}

    def make(self, cfg):
        if cfg['kind'] == 'knn':
            return make_knn(cfg)
        if cfg['kind'] == 'scripted':
            return scripted()(salt=cfg['salt'], holes=cfg['holes'], verbose=False)
        if cfg['kind'] == 'deep':
            return make_deep(cfg)
        return factor_model()(seed=cfg['seed'], verbose=False)

    def fit(self, m, cfg, ds, copy):
        if cfg['kind'] == 'factors':
            m.fit(ds, copy_dataset=copy, epochs=cfg['epochs'], batch_size=2, neg_ratio=cfg['neg'], learning_rate=0.05)
        elif cfg['kind'] == 'deep':
            fit_deep(m, cfg, ds, copy)
        else:
            m.fit(ds, copy_dataset=copy)

    # ------------------------------------------------------------------------------------------------------ execution
    def execute(self, ctx, plan):
        set_knobs(plan['knobs'])
        r = Runner(ctx, plan)
        self.ctx, self.r, self.plan, self.models, self.taken = ctx, r, plan, {}, set()
        hist = []
        for op in plan['ops']:
            out = 'ok'
            if op['op'] == 'fit':
                out = self.do_fit(op)
            elif op['op'] == 'ask':
                out = self.ask(op['mid'], 'later on')
            elif op['op'] == 'forget':
                self.models.pop(op['mid'], None)
                self.taken = {f.sid for f in self.models.values()}
            else:
                if op.get('src') in self.taken and (
                        (op['op'] in IN_PLACE and not op.get('copy', True)) or op['op'] in ('apply', 'ids', 'noids') or
                        (op['op'] == 'close' and op.get('explicit')) or (op['op'] == 'bad' and not op.get('copy', True))):
                    continue
                if not r.do(op):
                    continue
            hist.append((op['op'], op.get('copy'), str(op.get('cfg')), str(op.get('fault')), out))
        for sid in sorted(r.slots):
            r.audit(sid, 'at the end')
        for mid in sorted(self.models):
            self.ask(mid, 'at the end')
        ctx.state(hist)

    def usable(self, s):
        m = s.m
        if not all(c in m.columns for c in ('user', 'item', 'interaction')) or s.types.get('interaction') == 'str':
            return False
        return len(m.rows) >= 2 and len({v['interaction'] for v in m.rows.values()}) >= 1

    def do_fit(self, op):
        r, ctx = self.r, self.ctx
        s = r.slots.get(op['src'])
        if s is None or not self.usable(s) or (not op['copy'] and op['src'] in self.taken):
            return 'skip'
        cfg = op['cfg']
        old = self.models.get(op['mid'])
        if old is not None and old.cfg['kind'] == cfg['kind']:
            m, cfg = old.m, dict(old.cfg)          # the same object again
        else:
            old, m = None, self.make(cfg)
        if cfg['kind'] == 'deep' and not fits_deep(cfg, [(v['user'], v['item'], v['interaction']) for v in s.m.rows.values()]):
            return 'skip'
        x = Fitted()
        x.m, x.cfg, x.sid, x.broken = m, cfg, None if op['copy'] else op['src'], False
        x.pairs = sorted({(v['user'], v['item']) for v in s.m.rows.values()}, key=str)
        x.tag = f'{cfg["kind"]} model {cfg} fitted on {"a copy of " if op["copy"] else ""}{s.backend} dataset #{op["src"]}'
        f = Fault(ctx, op['fault']) if op['fault'] else None
        err = None
        if f:
            f.arm()
        try:
            self.fit(m, cfg, s.ds, op['copy'])
        except SimAbort:
            raise
        except Exception as e:
            err = short(e)
        finally:
            if f:
                f.disarm()
        if err and not (f and f.fired()):
            raise Violation('exception', f'{x.tag}: fit raised {err}')
        if not op['copy'] and 'uid' in s.ds.columns and not (err and 'uid' in s.m.columns and self.as_before(s)):
            r.learn_ids(op['src'])
        if f and f.fired():
            for sid in sorted(r.slots):
                r.audit(sid, f'after {op["fault"]["kind"]} fault during a fit')
        if err:
            self.failed_fit(x, old, s, err)
            if old is not None:
                old.broken = True
                old.sid = None
                self.taken = {y.sid for y in self.models.values()}
            ctx.probe('failed_fits')
            return 'failed'
        m = x.m
        n = (len({p[0] for p in x.pairs}), len({p[1] for p in x.pairs}), len(s.m.rows))
        if (m.n_users, m.n_items, m.n_rows) != n:
            raise Violation('wrong-model', f'{x.tag}: it has {m.n_users} users, {m.n_items} items, {m.n_rows} rows, expected {n}')
        x.want = self.answers(x)
        self.check_fresh(x, s)
        self.models[op['mid']] = x
        self.taken = {y.sid for y in self.models.values()} - {None}
        ctx.probe('fits')
        if cfg['kind'] == 'deep':
            ctx.probe('deep_fits')
        if old is not None:
            ctx.probe('refits')
        ctx.log('fit', op['mid'], x.want)
        return 'ok'

    def answers(self, x):
        try:
            return answers(x.m, {'rows': x.pairs})
        except SimAbort:
            raise
        except Exception as e:
            raise Violation('exception', f'{x.tag}: a request raised {short(e)}')

    def ask(self, mid, when):
        x = self.models.get(mid)
        if x is None:
            return 'skip'
        if x.broken:
            return 'broken'
        got = self.answers(x)
        if got != x.want:
            d = [(a, b) for a, b in zip(got, x.want) if a != b]
            raise Violation('answers-changed', f'{x.tag}: {when} it answers {str(d[0][0])[:300]}, right after the fit it '
                                               f'answered {str(d[0][1])[:300]}')
        self.ctx.probe('asked')
        return 'ok'

    def as_before(self, s):
        """A fit that failed may have kept the internal ids the dataset had."""
        return read_all(s.ds) == s.m.rows

    def check_fresh(self, x, s):
        """The same as a model fitted on newly loaded records (in two different orders, to exclude unstable scores)."""
        c = x.cfg
        if c['kind'] != 'knn' or c['k'] < max(x.m.n_users, x.m.n_items):
            return
        cols = ['user', 'item', 'interaction']
        rows = [[v[k] for k in cols] for _, v in sorted(s.m.rows.items())]
        refs = []
        for j, rs in enumerate((rows, rows[::-1])):
            m = self.make(c)
            m.fit(frame(cols, rs))
            refs.append(answers(m, {'rows': x.pairs}))
        if not close(refs[0], refs[1]):
            self.ctx.probe('unstable_scores')
            return
        if not close(x.want, refs[0]):
            d = [(a, b) for a, b in zip(x.want, refs[0]) if not close(a, b)]
            raise Violation('wrong-model', f'{x.tag}: it answers {str(d[0][0])[:300]}, a model fitted on the same records '
                                           f'newly loaded answers {str(d[0][1])[:300]}')
        self.ctx.probe('compared_with_fresh')

    def failed_fit(self, x, old, s, err):
        """Requests to a model whose last fit failed: refused, or answered by one complete fit."""
        try:
            got = answers(x.m, {'rows': old.pairs if old else x.pairs})
        except SimAbort:
            raise
        except Exception:
            self.ctx.probe('refused_after_failed_fit')
            return
        if old is not None and not old.broken and got == old.want:
            self.ctx.probe('kept_after_failed_fit')
            return
        if x.cfg['kind'] == 'deep' and x.m.interaction_dataset is not None:
            return
        if x.cfg['kind'] == 'factors' and x.m.interaction_dataset is not None and x.m.noted:
            return              # training was interrupted: a model that is not trained to the end is legitimate
        if old is None:
            ref = self.make(x.cfg)
            cols = ['user', 'item', 'interaction']
            ds = frame(cols, [[v[k] for k in cols] for _, v in sorted(s.m.rows.items())])
            self.fit(ref, x.cfg, ds, False)
            if close(got, answers(ref, {'rows': x.pairs})):
                return
        raise Violation('half-fitted', f'{x.tag}: the fit raised {err}, and the model answers with a mixture: {str(got)[:300]}')


PROP = S19()
