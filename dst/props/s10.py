import math

from ..base import Prop, gen_sched
from ..dsmodel import gen_table, model_of, norm, read_all
from ..harness import Violation
from ..models import gen_knn, make_knn, scripted, value
from ..runner import gen_knobs, load, set_knobs, short

METRICS = ['Precision', 'Recall', 'HitRatio', 'NDCG', 'DCG', 'FScore', 'AveragePrecision', 'ReciprocalRank']


# ------------------------------------------------------------------------------- metrics, written from their definitions
def dcg(recs, rel):
    return sum((2 ** float(rel[r]) - 1) / math.log2(2 + i) for i, r in enumerate(recs))


def metric(name, recs, k, relevant, rel):
    """Value of the metric, or None where it is undefined."""
    top = recs[:k]
    hits = len(set(top) & set(relevant))
    if name == 'Precision':
        return hits / len(top) if top else None
    if name in ('Recall', 'HitRatio'):
        return hits / len(relevant) if relevant else None
    if name == 'FScore':
        if not top or not relevant or not hits:
            return None
        p, r = hits / len(top), hits / len(relevant)
        return 2 * p * r / (p + r)
    if name == 'DCG':
        return dcg(top, rel)
    if name == 'NDCG':
        best = dcg(sorted(rel, key=lambda x: -rel[x])[:k], rel)
        return dcg(top, rel) / best if best else None
    if name == 'AveragePrecision':
        if not relevant:
            return None
        s = sum(len(set(top[:i + 1]) & set(relevant)) / (i + 1) for i, r in enumerate(top) if r in relevant)
        return s / min(len(relevant), k)
    if name == 'ReciprocalRank':
        best = [r for r in relevant if rel[r] == max(rel[x] for x in relevant)]
        vals = {1 / (top.index(r) + 1) if r in top else 0 for r in best} or {0}
        return vals.pop() if len(vals) == 1 else math.nan           # several most relevant items: any of them


def average(sums, names, ks):
    return {f'{n}@{k}': (sum(sums[n, k]) / len(sums[n, k]) if (n, k) in sums else 0) for n in names for k in ks}


def gen_eval(rng, kinds=('ranking', 'ranking', 'recommendation', 'recommendation', 'predictive'), any_ids=False):
    strings = rng.random() < 0.3
    gaps = any_ids and not strings and rng.random() < 0.2
    nu, ni = rng.randint(2, 7), rng.randint(3, 10)
    cols, rows, types = gen_table(rng, max_rows=rng.choice([12, 25, 40]), min_rows=6, dup=False, strings=strings,
                                  n_users=nu, n_items=ni, contiguous=not strings and not gaps, extra=False)
    if not strings and not gaps:
        for i in range(ni):                     # generated negatives are drawn from 0..n_items-1: have every item
            if all(r[1] != i for r in rows):
                rows.append([rng.randrange(nu), i, rng.choice([1, 3, 5])])
    users = sorted({r[0] for r in rows}, key=str)
    items = sorted({r[1] for r in rows}, key=str)
    test, seen = [], set()
    for _ in range(rng.randint(3, 24)):
        u, i = rng.choice(users), rng.choice(items)
        if rng.random() < 0.04:
            u = 'ghost' if strings else 900
        if rng.random() < 0.06:
            i = 'nowhere' if strings else 900
        if not test and strings:
            u, i = rows[0][0], rows[0][1]
        if (u, i) not in seen:
            seen.add((u, i))
            test.append([u, i, rng.choice([0, 1, 2, 3, 4, 5])])
    kind = rng.choice(list(kinds))
    a = {'verbose': rng.random() < 0.4}
    plan = {'backend': rng.choice(['mem', 'db', 'db']), 'tbackend': rng.choice(['mem', 'db', 'db']), 'rows': rows,
            'test': test if rng.random() < 0.85 else None, 'columns': cols, 'knobs': gen_knobs(rng), 'kind': kind,
            'view': rng.random() < 0.4, 'nan': rng.random() < 0.15, 'bad': []}
    if kind == 'predictive':
        a['count_none_predictions'] = rng.random() < 0.5
        if rng.random() < 0.5:
            a['n_test_predictions'] = rng.randint(1, 20)
        plan['metrics'] = rng.sample(['MSE', 'RMSE', 'MAE'], rng.randint(1, 3))
    else:
        a['max_concurrent_threads'] = rng.choice([1, 2, 3, 4, 8])
        a['k'] = rng.choice([1, 2, 3, 5, 10, [1, 3], [5, 1], [1, 2, 5], [3, 10, 2]])
        a['seed'] = rng.choice([0, 1, 99])
        a['interaction_threshold'] = rng.choice([0.001, 1, 3, 4])
        a['novelty'] = rng.random() < 0.3
        if rng.random() < 0.3:
            a['n_pos_interactions'] = rng.choice([1, 2])
        if rng.random() < 0.2:
            a['n_test_users'] = rng.randint(1, 5)
        if kind == 'ranking':
            if rng.random() < 0.4:
                a['n_neg_interactions'] = rng.choice([1, 2, 4, 0.5, 1.0])
                a['generate_negative_pairs'] = (any_ids or not strings) and rng.random() < 0.6
        elif rng.random() < 0.3:
            a['ignore_low_predictions_threshold'] = rng.choice([1.0, 2.5])
        plan['metrics'] = rng.sample(METRICS, rng.randint(1, len(METRICS)))
    plan['args'] = a
    if rng.random() < 0.3:
        plan['knn'] = gen_knn(rng)
    else:
        plan['salt'], plan['holes'] = rng.randrange(1000), rng.choice([0, 0, 10, 40])
    plan['sched'] = gen_sched(rng)
    return plan


def setup(ctx, plan, name):
    set_knobs(plan['knobs'])
    train = load(ctx, plan['backend'], plan['columns'], plan['rows'], name + '-train', knobs=plan['knobs'])
    test = None
    if plan['test'] is not None:
        rows = plan['test']
        if plan['view']:                        # evaluated on a view of a larger dataset
            rows = rows + [[r[0], r[1], 77] for r in rows[:3]]
        test = load(ctx, plan['tbackend'], ['user', 'item', 'interaction'], rows, name + '-test', knobs=plan['knobs'])
        if plan['view']:
            test = test.select('interaction < 70')
    if 'knn' in plan:
        m = make_knn(plan['knn'])
    else:
        m = scripted()(salt=plan['salt'], holes=plan['holes'], bad=plan['bad'], verbose=False)
    m.fit(train)
    return m, test


_NOTES = []


def notes():
    """Class of a metric that notes what it is asked to judge."""
    if _NOTES:
        return _NOTES[0]
    from DRecPy.Evaluation.Metrics import RankingMetricABC

    class Notes(RankingMetricABC):
        def __init__(self):
            super().__init__()
            self.calls = []

        def __call__(self, recommendations, k=None, relevant_recommendations=None, relevancies=None):
            self.calls.append((k, [norm(i) for i in recommendations], [norm(i) for i in relevant_recommendations],
                               {norm(i): norm(v) for i, v in relevancies.items()}))
            return 0

    _NOTES.append(Notes)
    return Notes


def run_eval(plan, model, test, args, extra=()):
    from DRecPy.Evaluation import Metrics
    from DRecPy.Evaluation.Processes import predictive_evaluation, ranking_evaluation, recommendation_evaluation
    fn = {'ranking': ranking_evaluation, 'recommendation': recommendation_evaluation,
          'predictive': predictive_evaluation}[plan['kind']]
    return fn(model, test, metrics=[getattr(Metrics, n)() for n in plan['metrics']] + list(extra), block=False, **args)


def reference(plan, model):
    """Serial evaluation written from the documentation; None where the request samples at random."""
    a, kind = plan['args'], plan['kind']
    train = [(r[0], r[1], r[2]) for r in plan['rows']]
    test = [(r[0], r[1], r[2]) for r in (plan['test'] if plan['test'] is not None else plan['rows'])]
    ds = model.interaction_dataset
    tu, ti = {r[0] for r in train}, {r[1] for r in train}
    uid = {u: int(ds.user_to_uid(u)) for u in tu}
    iid = {i: int(ds.item_to_iid(i)) for i in ti}

    def pred(u, i):
        if u not in uid or i not in iid:
            return None
        return value(uid[u], iid[i], plan['salt'], plan['holes'])

    if kind == 'predictive':
        n = a.get('n_test_predictions', len(test))
        ps = []
        for u, i, v in test:
            if len(ps) >= n:
                break
            p = pred(u, i)
            if p is None and not a['count_none_predictions']:
                continue
            ps.append((0 if p is None else p, v))
        if not ps:
            return None
        mse = sum((p - v) ** 2 for p, v in ps) / len(ps)
        out = {'MSE': mse, 'RMSE': math.sqrt(mse), 'MAE': sum(abs(p - v) for p, v in ps) / len(ps)}
        return {n: out[n] for n in plan['metrics']}
    if a.get('n_pos_interactions') or a.get('n_neg_interactions') or a.get('n_test_users'):
        return None
    ks = a['k'] if isinstance(a['k'], list) else [a['k']]
    sums = {}
    users = []
    for u, _, _ in test:
        if u not in users:
            users.append(u)
    for u in users:
        mine = {i: v for x, i, v in test if x == u}
        if u not in uid or u in plan.get('skip', ()):
            continue
        if u in plan['bad'] and (kind == 'recommendation' or any(i in iid for i in mine)):
            continue                            # the model fails as soon as it has to predict for this user
        pos = [i for i, v in mine.items() if v >= a['interaction_threshold']]
        rated = {i for x, i, _ in train if x == u}
        cand = (list(mine) if kind == 'ranking' else list(ti))
        if not pos and kind == 'recommendation':
            continue
        got = sorted(((pred(u, i), i) for i in cand if i in iid and pred(u, i) is not None and
                      not (a['novelty'] and i in rated)), key=lambda x: -x[0])
        if kind == 'recommendation':
            got = got[:max(ks)]
            low = a.get('ignore_low_predictions_threshold')
            if low is not None:
                got = [x for x in got if x[0] >= low]
        recs = [i for _, i in got]
        rel = {i: mine.get(i, 0) for i in (list(mine) if kind == 'ranking' else set(pos) | set(recs))}
        for name in plan['metrics']:
            for k in ks:
                v = metric(name, recs, k, pos, rel)
                if v is not None:
                    sums.setdefault((name, k), []).append(v)
    return average(sums, plan['metrics'], ks)


def known_ids(plan, model):
    ds = model.interaction_dataset
    return ({u: int(ds.user_to_uid(u)) for u in {r[0] for r in plan['rows']}},
            {i: int(ds.item_to_iid(i)) for i in {r[1] for r in plan['rows']}})


def sampled_ranking(ctx, plan, model, tag):
    """Result of a ranking evaluation that samples, from the lists the model was asked to rank, after checking them."""
    a = plan['args']
    train = {(r[0], r[1]): r[2] for r in plan['rows']}
    test = {(r[0], r[1]): r[2] for r in (plan['test'] if plan['test'] is not None else plan['rows'])}
    uid, iid = known_ids(plan, model)
    thr, n_pos, n_neg = a['interaction_threshold'], a.get('n_pos_interactions'), a.get('n_neg_interactions')
    gen = a.get('generate_negative_pairs', False)
    users = []
    for u, _ in test:
        if u not in users:
            users.append(u)
    ranked = [(norm(u), [norm(i) for i in items]) for u, items in model.ranked]
    if len({str(u) for u, _ in ranked}) != len(ranked) or any(u not in users for u, _ in ranked):
        raise Violation('wrong-sample', f'{tag}: lists of the users {[u for u, _ in ranked]} were ranked')
    if len(ranked) > a.get('n_test_users', len(users)):
        raise Violation('wrong-sample', f'{tag}: lists of {len(ranked)} users were ranked')
    lists = dict(ranked)
    sums, ks, bogus = {}, a['k'] if isinstance(a['k'], list) else [a['k']], False
    for u in users:
        mine = {i: v for (x, i), v in test.items() if x == u}
        pos = [i for i, v in mine.items() if v >= thr]
        neg = [i for i, v in mine.items() if v < thr]
        black = set(pos) | {i for (x, i), v in train.items() if x == u and v >= thr}
        want_pos = len(pos) if n_pos is None else n_pos
        want_neg = len(neg) if n_neg is None else n_neg if isinstance(n_neg, int) else int(n_neg * want_pos)
        made = max(0, want_neg - len(neg)) if gen else 0
        if u not in lists:
            if len(pos) < want_pos or want_pos + min(want_neg, len(neg)) + made == 0 or 'n_test_users' in a or \
                    made and len(iid) - len(black) < want_neg:
                continue
            raise Violation('wrong-sample', f'{tag}: no list of user {u} was ranked')
        items = lists[u]
        p, n, g = [i for i in items if i in pos], [i for i in items if i in neg], [i for i in items if i not in mine]
        if len(pos) < want_pos or len(p) != want_pos or len(n) != min(want_neg, len(neg)) or len(g) != made or \
                len({str(i) for i in items}) != len(items):
            raise Violation('wrong-sample', f'{tag}: {items} was ranked for user {u}, positives {pos}, negatives {neg}')
        ctx.probe('sampled_list')
        for i in g:
            if i in black:
                raise Violation('wrong-sample', f'{tag}: generated negative {i} is positive for user {u}')
            if i not in iid:
                if isinstance(i, int) and 0 <= i < len(iid):
                    bogus = True
                    ctx.known('S10-generated-negatives', f'{tag}: generated negative {i} for user {u} is no item')
                else:
                    raise Violation('wrong-sample', f'{tag}: generated negative {i} is not a known item')
            else:
                ctx.probe('generated_negative')
        if u not in uid:
            continue
        rated = {i for (x, i) in train if x == u}
        got = sorted(((value(uid[u], iid[i], plan['salt'], plan['holes']), i) for i in items if i in iid and
                      value(uid[u], iid[i], plan['salt'], plan['holes']) is not None and
                      not (a['novelty'] and i in rated)), key=lambda x: -x[0])
        for name in plan['metrics']:
            for k in ks:
                v = metric(name, [i for _, i in got], k, p, {i: mine.get(i, 0) for i in items})
                if v is not None:
                    sums.setdefault((name, k), []).append(v)
    # with an item that doesn't exist the user may or may not be counted, depending on the types of the columns
    return None if bogus else average(sums, plan['metrics'], ks)


def sampled_recommendation(ctx, plan, model, tag, calls):
    """Result of a recommendation evaluation that samples, from what its metrics were given, after checking it."""
    a = plan['args']
    train = {(r[0], r[1]): r[2] for r in plan['rows']}
    test = {(r[0], r[1]): r[2] for r in (plan['test'] if plan['test'] is not None else plan['rows'])}
    uid, iid = known_ids(plan, model)
    thr, n_pos, low = a['interaction_threshold'], a.get('n_pos_interactions'), a.get('ignore_low_predictions_threshold')
    ks = a['k'] if isinstance(a['k'], list) else [a['k']]
    options, must = [], 0
    for u in {u for u, _ in test}:
        if u not in uid:
            continue
        mine = {i: v for (x, i), v in test.items() if x == u}
        pos = {i for i, v in mine.items() if v >= thr}
        if len(pos) < (n_pos or 1):
            continue
        must += 1
        rated = {i for (x, i) in train if x == u}
        got = sorted(((value(uid[u], j, plan['salt'], plan['holes']), i) for i, j in iid.items()
                      if value(uid[u], j, plan['salt'], plan['holes']) is not None and not (a['novelty'] and i in rated)),
                     key=lambda x: -x[0])[:max(ks)]
        options.append((u, mine, pos, [i for s, i in got if low is None or s >= low]))
    sums = {}
    for k in ks:
        mine_k = [c for c in calls if c[0] == k]
        if len(mine_k) > a.get('n_test_users', must) or len(mine_k) < must and 'n_test_users' not in a:
            raise Violation('wrong-sample', f'{tag}: {len(mine_k)} users were evaluated, {must} can be')
        for _, recs, rel, values in mine_k:
            for u, mine, pos, want in options:
                if recs == want and set(rel) <= pos and len(set(rel)) == len(rel) == (n_pos or len(pos)) and \
                        values == {i: mine.get(i, 0) for i in set(rel) | set(recs)}:
                    break
            else:
                raise Violation('wrong-sample', f'{tag}: no user of the test data has recommendations {recs}, sampled '
                                f'items {rel} and values {values}')
            ctx.probe('sampled_recommendation')
            for name in plan['metrics']:
                v = metric(name, recs, k, rel, values)
                if v is not None:
                    sums.setdefault((name, k), []).append(v)
    return average(sums, plan['metrics'], ks)


def same(x, y, tol=1.01e-4):
    return set(x) == set(y) and all(abs(float(x[n]) - float(y[n])) <= tol or
                                    (math.isnan(float(x[n])) and math.isnan(float(y[n]))) for n in x)


def agrees(x, want, tol=1.01e-4):
    """Like same(); a nan in `want` stands for several correct values."""
    return set(x) == set(want) and all(math.isnan(want[n]) or abs(float(x[n]) - float(want[n])) <= tol for n in x)


class S10(Prop):
    ID = 'S10'
    RUNS = {'quick': 2500, 'thorough': 50000}
    WALL = {'quick': 150.0, 'thorough': 1800.0}
    RULE = ('one evaluation = one evaluation process under one schedule of its worker threads; a distinct case is a '
            'distinct (process, model, backends, arguments, schedule signature)')
    REAL = ['DRecPy.Evaluation.Processes', 'DRecPy.Evaluation.Metrics', 'DRecPy.Recommender (base class, KNN)',
            'DRecPy.Dataset (both backends)', 'SQLite', 'pandas']
    STUB = ['thread pool, threads, locks and clock (simulated scheduler)', 'scripted scoring function in most runs',
            'plotting window']
    ASSUMPTIONS = ['one evaluation at a time (concurrent calls are documented as unsupported)',
                   'results are compared up to the rounding of the reported values (1e-4)',
                   'at most one record per user and item']

    def gen(self, rng, tier, i):
        return gen_eval(rng, any_ids=True)

    def execute(self, ctx, plan):
        a = plan['args']
        tag = f'{plan["kind"]} evaluation ({"knn" if "knn" in plan else "scripted"} model, {plan["backend"]} train, ' \
              f'{plan["tbackend"] if plan["test"] is not None else "same"} test, {a})'
        model, test = setup(ctx, plan, 'a')
        before = self.contents(model, test)
        extra = [notes()()] if plan['kind'] == 'recommendation' and 'knn' not in plan else []
        try:
            got = run_eval(plan, model, test, dict(a), extra)
        except Exception as e:
            if plan['kind'] == 'predictive' and 'ValueError' in short(e):
                return                                  # no prediction at all: nothing to average
            raise Violation('exception', f'{tag} raised {short(e)}')
        got = {k: float(v) for k, v in got.items() if not k.startswith('Notes@')}
        if 'knn' not in plan:
            want = reference(plan, model)
            if want is None and plan['kind'] == 'ranking':
                want = sampled_ranking(ctx, plan, model, tag)
            elif want is None and extra:
                want = sampled_recommendation(ctx, plan, model, tag, extra[0].calls)
            if want is not None:
                ctx.probe('independent_reference')
                if not agrees(got, want):
                    raise Violation('wrong-result', f'{tag}: {got}, expected {want}')
        if self.contents(model, test) != before:
            raise Violation('data-changed', f'{tag} changed a dataset it was given')
        k = ctx.k
        k.rate = 0.0
        k._arm()
        model2, test2 = setup(ctx, plan, 'b')
        b = dict(a, verbose=False)
        if 'max_concurrent_threads' in b:
            b['max_concurrent_threads'] = 1
        ref = run_eval(plan, model2, test2, b)
        if not same(got, ref):
            raise Violation('schedule-dependent', f'{tag}: {got}, with a single worker {ref}')
        for name, v in got.items():
            if v < 0 or (v > 1.0001 and not name.startswith(('DCG', 'MSE', 'RMSE', 'MAE'))):
                raise Violation('wrong-result', f'{tag}: {name} = {v}')
        ctx.log('eval', sorted((n, round(v, 3)) for n, v in got.items()))
        ctx.state((plan['kind'], plan['backend'], plan['tbackend'], sorted(a.items(), key=str), k.signature))
        ctx.probe('eval_' + plan['kind'])

    def contents(self, model, test):
        out = [read_all(model.interaction_dataset)]
        if test is not None:
            out.append(read_all(test))
        return out

    def shrink(self, plan):
        for key in ('rows', 'test'):
            rows = plan[key]
            if not rows:
                continue
            size = max(1, len(rows) // 2)
            while size >= 1:
                for s in range(1, len(rows), size):     # the first row decides the column types
                    if len(rows) - size >= 2:
                        yield dict(plan, **{key: rows[:s] + rows[s + size:]})
                size //= 2
        if len(plan['metrics']) > 1:
            for n in plan['metrics']:
                yield dict(plan, metrics=[n])
        if plan['view']:
            yield dict(plan, view=False)


PROP = S10()
