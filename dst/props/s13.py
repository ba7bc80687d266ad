import random
import threading

from .. import seams
from ..base import Prop, gen_sched
from ..dsmodel import gen_conds, gen_table, model_of, norm, norm_row, q, read_all
from ..harness import Violation
from ..runner import gen_knobs, load, set_knobs, short


def gen_sampler(rng):
    kind = rng.choice(['point', 'point', 'list', 'list', 'rand', 'null'])
    seed = rng.choice([None, 0, 1, 7, 99, 12345])
    if kind == 'point':
        return ['point', {'neg_ratio': rng.choice([0, 1, 3]), 'interaction_threshold': rng.choice([None, 2, 3]),
                          'seed': seed}, [rng.choice(['sample', 'sample_one', 'pos', 'neg']) for _ in range(rng.randint(1, 8))]]
    if kind == 'list':
        lo = rng.choice([1, 1, 2, 3])
        return ['list', {'group_columns': rng.choice([['uid'], ['user'], ['iid'], ['item'], ['uid', 'iid']]),
                         'neg_ratio': rng.choice([0, 1, 2]), 'n_targets': rng.choice([None, 1, 2, 3]),
                         'negative_ids_col': rng.choice(['iid', 'iid', 'item', 'uid', 'user']),
                         'interaction_threshold': rng.choice([None, 2]), 'min_positive_records': lo,
                         'max_positive_records': rng.choice([None, lo, lo + 1, lo + 2]),
                         'sort_column': rng.choice([None, 'interaction', 'rid']), 'seed': seed}, rng.randint(1, 6)]
    if kind == 'rand':
        return ['rand', rng.choice([None, None, ['interaction', '>', 2], ['interaction', '>=', 1]]), seed,
                rng.randint(1, 12)]
    return ['null', rng.choice([None, 2, 3]), seed, rng.randint(1, 12)]


class Oracle:
    """What may be drawn, computed from the records as read at the start."""

    def __init__(self, rows):
        self.rows = rows
        self.pairs = {}
        for r, v in rows.items():
            self.pairs.setdefault((v['uid'], v['iid']), []).append(v['interaction'])
        self.max_uid = max(v['uid'] for v in rows.values())
        self.max_iid = max(v['iid'] for v in rows.values())

    def positive(self, tag, p, thr):
        uid, iid, x = (norm(z) for z in p)
        if x not in self.pairs.get((uid, iid), ()):
            raise Violation('invalid-sample', f'{tag}: positive sample {(uid, iid, x)} is no record (the pair has '
                                              f'{self.pairs.get((uid, iid), [])})')
        if thr is not None and x < thr:
            raise Violation('invalid-sample', f'{tag}: positive sample {(uid, iid, x)} is below the threshold {thr}')

    def negative(self, tag, p, thr):
        uid, iid = norm(p[0]), norm(p[1])
        if len(p) > 2 and norm(p[2]) != 0:
            raise Violation('invalid-sample', f'{tag}: negative sample with interaction {p[2]}')
        if type(uid) is not int or type(iid) is not int or not 0 <= uid <= self.max_uid or not 0 <= iid <= self.max_iid:
            raise Violation('invalid-sample', f'{tag}: negative sample {(uid, iid)} is not a pair of known ids')
        have = self.pairs.get((uid, iid))
        if have and (thr is None or min(have) >= thr):
            raise Violation('invalid-sample', f'{tag}: negative sample {(uid, iid)} is a record with {have}')

    def record(self, tag, rec):
        rec = norm_row(rec)
        rid = rec.pop('rid')
        if self.rows.get(rid) != rec:
            raise Violation('invalid-sample', f'{tag}: record {rid} {rec} is {self.rows.get(rid)} in the dataset')
        return rid, rec

    def group(self, tag, g, a):
        if a['n_targets'] is None:
            pos, tgt, neg = g, [], None
        else:
            pos, tgt, neg = g
        recs = [self.record(tag, r) for r in list(pos) + list(tgt)]
        key = tuple(recs[0][1][c] for c in a['group_columns'])
        thr = a['interaction_threshold']
        mine = {r: v for r, v in self.rows.items() if tuple(v[c] for c in a['group_columns']) == key
                and (thr is None or v['interaction'] >= thr)}
        if len({r for r, _ in recs}) != len(recs):
            raise Violation('invalid-sample', f'{tag}: a record twice in one group: {[r for r, _ in recs]}')
        for r, v in recs:
            if r not in mine:
                raise Violation('invalid-sample', f'{tag}: record {r} {v} is no positive record of group {key}')
        hi = a['max_positive_records']
        if len(pos) < a['min_positive_records'] or (hi is not None and len(pos) > hi):
            raise Violation('invalid-sample', f'{tag}: {len(pos)} positive records')
        if neg is not None and len(tgt) != a['n_targets']:
            raise Violation('invalid-sample', f'{tag}: {len(tgt)} targets')
        # consecutive in the requested order (ties in the sort column may be in any order)
        col = a['sort_column']
        sortv = [(r if col in (None, 'rid') else v[col]) for r, v in recs]
        if sortv != sorted(sortv):
            raise Violation('invalid-sample', f'{tag}: the sequence is not sorted: {sortv}')
        allv = sorted((r if col in (None, 'rid') else v[col]) for r, v in mine.items())
        if not any(allv[i:i + len(sortv)] == sortv for i in range(len(allv))):
            raise Violation('invalid-sample', f'{tag}: sequence {sortv} skips records of the group {allv}')
        if hi is None and len(recs) != len(mine):
            raise Violation('invalid-sample', f'{tag}: {len(recs)} of the {len(mine)} records of the group')
        if neg is not None:
            neg = [norm(x) for x in neg]
            ids = {v[a['negative_ids_col']] for v in self.rows.values()}
            used = {v[a['negative_ids_col']] for v in mine.values()}
            if len(set(neg)) != len(neg) or len(neg) != a['neg_ratio'] * a['n_targets']:
                raise Violation('invalid-sample', f'{tag}: negative ids {neg}')
            if set(neg) - ids or set(neg) & used:
                raise Violation('invalid-sample', f'{tag}: negative ids {neg}: unknown {set(neg) - ids}, positive '
                                                  f'{set(neg) & used}')


class S13(Prop):
    ID = 'S13'
    RUNS = {'quick': 1500, 'thorough': 30000}
    WALL = {'quick': 150.0, 'thorough': 1800.0}
    RULE = ('one evaluation = samplers drawing in turns or in threads from one dataset while it is otherwise used; a '
            'distinct case is a distinct (data shape, samplers, schedule signature)')
    REAL = ['DRecPy.Sampler', 'DRecPy.Dataset (both backends)', 'SQLite', 'pandas']
    STUB = ['threads, locks and clock (simulated scheduler)', 'global random generators (seeded by the simulator)']
    ASSUMPTIONS = ['the dataset a sampler was created on is not itself modified in place while sampling',
                   'a pair without a record exists when negatives are requested',
                   'reachability is decided with enough draws that a reachable record is missed with probability < 1e-9']

    def gen(self, rng, tier, i):
        big = rng.random() < 0.06
        reach = not big and rng.random() < 0.15
        nu, ni = (rng.randint(129, 140), rng.randint(2, 4)) if big else (rng.randint(2, 4), rng.randint(3, 4)) if reach \
            else (rng.randint(2, 7), rng.randint(4, 9))
        if big and rng.random() < 0.5:
            nu, ni = ni, nu
        cols, rows, types = gen_table(rng, max_rows=150 if big else nu * ni // 2 + 1, min_rows=120 if big else 4,
                                      dup=rng.random() < 0.3, n_users=nu, n_items=ni)
        if big:                                  # every user and item present
            U, I = sorted({r[0] for r in rows}, key=str), sorted({r[1] for r in rows}, key=str)
            base = list(rows[0])
            rows = []
            for j in range(max(nu, ni)):
                r = list(base)
                r[0], r[1], r[2] = 1000 + j % nu, 2000 + j % ni, rng.choice([1, 2, 3, 4, 5])
                rows.append(r)
            types = dict(types, user='int', item='int')
        plan = {'backend': rng.choice(['mem', 'db']), 'columns': cols, 'rows': rows, 'knobs': gen_knobs(rng), 'views': [],
                'samplers': [gen_sampler(rng) for _ in range(rng.choice([1, 1, 2, 3, 4]))],
                'noise': rng.choice([0, 0.3, 0.7]), 'order': rng.getrandbits(32), 'threads': rng.random() < 0.4,
                'reach': reach, 'late': rng.random() < 0.5, 'sched': gen_sched(rng)}
        m = model_of(cols, rows)
        for _ in range(rng.choice([0, 0, 1, 2])):
            c = gen_conds(rng, m, types, n_max=1, columns=['user', 'item', 'interaction', 'rid'])
            if len(m.matching(c)) >= max(3, len(m.rows) // 2):
                plan['views'].append(c)
                m.select(c)
        return plan

    def execute(self, ctx, plan):
        set_knobs(plan['knobs'])
        ds = load(ctx, plan['backend'], plan['columns'], plan['rows'], 't', knobs=plan['knobs'])
        base = ds
        if not plan['late']:
            ds.assign_internal_ids()            # ids of the whole table; views have gaps
        for c in plan['views']:
            ds = ds.select(q(c))
        if plan['late']:
            ds.assign_internal_ids()
        rows = read_all(ds)
        o = Oracle(rows)
        k = ctx.k
        if len(o.pairs) >= (o.max_uid + 1) * (o.max_iid + 1) or not any(v['interaction'] >= 3 for v in rows.values()):
            return
        tag = f'{plan["backend"]} dataset'
        if plan['reach']:
            self.reach(ctx, plan, ds, o)
        order = random.Random(plan['order'])
        runs = [self.run_sampler(ctx, ds, o, s, tag) for s in plan['samplers']]
        if plan['threads'] and len(runs) > 1:
            errs = []

            def work(g):
                try:
                    for _ in g:
                        pass
                except BaseException as e:
                    errs.append(e)

            ts = [threading.Thread(target=work, args=(g,)) for g in runs]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
            for e in errs:
                if isinstance(e, Violation):
                    raise e
            if errs:
                raise Violation('exception', f'{tag}: sampling in threads raised {short(errs[0])}')
            ctx.probe('threaded')
        else:
            live = list(runs)
            while live:
                if order.random() < plan['noise']:
                    self.noise(order, ds, base)
                g = live[order.randrange(len(live))]
                try:
                    next(g)
                except StopIteration:
                    live.remove(g)
        if read_all(ds) != rows:
            raise Violation('source-changed', f'{tag}: sampling changed the dataset')
        ctx.state((plan['backend'], len(rows), str(plan['samplers']), k.signature))

    def run_sampler(self, ctx, ds, o, s, tag):
        from DRecPy.Sampler import ListSampler, PointSampler
        tag = f'{s[0]} sampler {s[1:]} on a {tag}'
        try:
            if s[0] == 'point':
                a = s[1]
                thr = a['interaction_threshold']
                p = PointSampler(ds, **a)
                yield
                for op in s[2]:
                    if op == 'pos':
                        o.positive(tag, p.sample_positive(), thr)
                    elif op == 'neg':
                        o.negative(tag, p.sample_negative(), thr)
                    else:
                        got = p.sample(5) if op == 'sample' else [p.sample_one()]
                        if len(got) != (5 if op == 'sample' else 1):
                            raise Violation('invalid-sample', f'{tag}: {len(got)} samples')
                        for x in got:
                            # a 0 may be a negative sample or a record with interaction 0
                            (o.negative if norm(x[2]) == 0 and a['neg_ratio'] else o.positive)(tag, x, thr) \
                                if not (norm(x[2]) == 0 and 0 in o.pairs.get((norm(x[0]), norm(x[1])), ())) else None
                    ctx.probe('draws')
                    yield
            elif s[0] == 'list':
                p = ListSampler(ds, **dict(s[1]))
                yield
                for _ in range(s[2]):
                    try:
                        gs = p.sample_group_records(2)
                    except Exception as e:
                        if 'max consecutive tries' not in str(e):
                            raise
                        ctx.probe('gave_up')
                        gs = None
                    if gs is not None:
                        if len(gs) != 2:
                            raise Violation('invalid-sample', f'{tag}: {len(gs)} groups')
                        for g in gs:
                            o.group(tag, g, s[1])
                            ctx.probe('groups')
                    yield
            elif s[0] == 'rand':
                c = s[1]
                ok = {r for r, v in o.rows.items() if c is None or
                      (v[c[0]] > c[2] if c[1] == '>' else v[c[0]] >= c[2])}
                if not ok:
                    return
                g = ds.select_random_generator(None if c is None else q([c]), seed=s[2])
                yield
                for _ in range(s[3]):
                    rid, rec = o.record(tag, next(g))
                    if rid not in ok:
                        raise Violation('invalid-sample', f'{tag}: record {rid} {rec}')
                    ctx.probe('draws')
                    yield
            else:
                g = ds.null_interaction_pair_generator(interaction_threshold=s[1], seed=s[2])
                yield
                for _ in range(s[3]):
                    o.negative(tag, next(g), s[1])
                    ctx.probe('draws')
                    yield
        except Violation:
            raise
        except Exception as e:
            raise Violation('exception', f'{tag} raised {short(e)}')

    def reach(self, ctx, plan, ds, o):
        """Every record, and every pair without one, can be drawn."""
        users = {}
        for r, v in o.rows.items():
            users.setdefault(v['uid'], []).append(r)
        n = 21 * (o.max_uid + 1) * max(len(x) for x in users.values())
        g = ds.select_random_generator(seed=plan['order'])
        left = set(o.rows)
        for _ in range(n):
            left.discard(norm(next(g)['rid']))
            if not left:
                break
        if left:
            raise Violation('unreachable', f'records {sorted(left)[:5]} of a {plan["backend"]} dataset were not drawn in '
                                           f'{n} draws')
        free = {(u, i) for u in range(o.max_uid + 1) for i in range(o.max_iid + 1)} - set(o.pairs)
        n = 21 * (o.max_uid + 1) * (o.max_iid + 1)
        g = ds.null_interaction_pair_generator(seed=plan['order'])
        left = set(free)
        for _ in range(n):
            a, b = next(g)
            left.discard((norm(a), norm(b)))
            if not left:
                break
        if left:
            raise Violation('unreachable', f'pairs {sorted(left)[:5]} of a {plan["backend"]} dataset were not drawn in '
                                           f'{n} draws')
        ctx.probe('reachability')

    def noise(self, rng, ds, base):
        kind = rng.randrange(6)
        d = rng.choice([ds, base])
        if kind == 0:
            random.seed(rng.choice([0, 1, 7]))
        elif kind == 1:
            list(d.select(f'interaction > {rng.randint(0, 4)}').values())
        elif kind == 2:
            d.unique(rng.choice(['user', 'item'])).values_list()
        elif kind == 3:
            x = d.select(f'interaction > {rng.randint(0, 3)}')
            x = x.select(f'interaction > {rng.randint(0, 3)}')
            if len(x):
                x.assign_internal_ids()
                x.values_list()
        elif kind == 4:
            c = d.copy()
            if len(c):
                c.apply('interaction', lambda v: v + 1)
            del c
        else:
            d.copy().drop([0]).count_unique('item')

    def shrink(self, plan):
        rs = plan['samplers']
        for j in range(len(rs)):
            if len(rs) > 1:
                yield dict(plan, samplers=rs[:j] + rs[j + 1:])
        if plan['noise']:
            yield dict(plan, noise=0)
        if plan['threads']:
            yield dict(plan, threads=False)
        if plan['reach']:
            yield dict(plan, reach=False)
        for j in range(len(plan['views'])):
            yield dict(plan, views=plan['views'][:j] + plan['views'][j + 1:])
        rows = plan['rows']
        size = max(1, len(rows) // 2)
        while size >= 1:
            for s in range(1, len(rows), size):
                if len(rows) - size >= 2:
                    yield dict(plan, rows=rows[:s] + rows[s + size:])
            size //= 2


PROP = S13()
