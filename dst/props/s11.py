from .. import seams
from ..base import Prop, gen_sched
from ..harness import Violation
from ..kernel import SimAbort
from ..runner import short
from .s09 import PROP as S09, build, check_split, gen_split, plain, run_split
from .s10 import agrees, gen_eval, reference, run_eval, same, setup


class Injected(Exception):
    pass


class FailingSelect:
    """Makes the n-th selection on one dataset object fail (workload fault for the memory backend)."""

    def __init__(self, ds, n):
        self.fired, self.left, self.real = False, n, ds.select
        ds.select = self
        self.ds = ds

    def __call__(self, *a, **kw):
        self.left -= 1
        if self.left == 0:
            self.fired = True
            raise Injected('selection failed')
        return self.real(*a, **kw)

    def remove(self):
        if 'select' in vars(self.ds):
            del self.ds.select


class S11(Prop):
    ID = 'S11'
    RUNS = {'quick': 2500, 'thorough': 50000}
    WALL = {'quick': 150.0, 'thorough': 1800.0}
    RULE = ('one evaluation = one split or evaluation with failing tasks under one schedule, followed by a repetition '
            'without faults; a distinct case is a distinct (request, fault position, schedule signature)')
    REAL = ['DRecPy.Evaluation', 'DRecPy.Recommender (base class, KNN)', 'DRecPy.Dataset (both backends)', 'SQLite',
            'pandas', 'progress bars']
    STUB = ['thread pool, threads, locks, sleeping and clock (simulated)', 'plotting window']
    ASSUMPTIONS = ['one split or evaluation at a time', 'failures are exceptions of tasks (statement failures, failing '
                   'selections, failing predictions), not interpreter or process death',
                   'termination = within 6 million simulated steps and 2 simulated hours']

    def gen(self, rng, tier, i):
        if rng.random() < 0.5:
            plan = gen_split(rng, timestamps=False)
            plan['what'] = 'split'
            if rng.random() < 0.5:
                plan['args'].pop('verbose', None)           # progress display
        else:
            plan = gen_eval(rng, ('ranking', 'recommendation'))
            plan['what'] = 'eval'
            plan['args']['verbose'] = rng.random() < 0.6
            for x in ('n_pos_interactions', 'n_neg_interactions', 'n_test_users', 'generate_negative_pairs'):
                plan['args'].pop(x, None)
            if 'knn' not in plan and rng.random() < 0.6:
                users = sorted({r[0] for r in plan['rows']}, key=str)
                plan['bad'] = rng.sample(users, rng.choice([1, 1, min(2, len(users)), len(users)]))
                plan['args']['novelty'] = False             # with it, a prediction might never be asked for
        plan['fail_at'] = rng.choice([0, rng.randint(1, 6), rng.randint(1, 30), rng.randint(1, 120)])
        plan['fail_n'] = rng.choice([1, 1, 1, 2, 5])
        plan['sched'] = gen_sched(rng)
        return plan

    # ---------------------------------------------------------------------------------------------- splits
    def split(self, ctx, plan):
        a = plan['args']
        ds, m = build(ctx, plan, 't')
        if not m.rows or (plan['kind'] == 'random' and int(len(m.rows) * a['test_ratio']) == 0):
            return
        tag = f'{plan["kind"]} split of a {plan["backend"]} dataset ({a}) with failure {plan["fail_at"]}'
        fs = None
        before = seams.STATS.get('fault_sql', 0)
        if plan['fail_at'] and plan['backend'] == 'db':
            seams.arm_sql({plan['fail_at'] + j: 'disk I/O error' for j in range(plan['fail_n'])})
        elif plan['fail_at']:
            fs = FailingSelect(ds, plan['fail_at'])
        out, err = None, None
        try:
            out = run_split(plan['kind'], ds, dict(a))
        except Exception as e:
            err = short(e)
        seams.arm_sql()
        fired = seams.STATS.get('fault_sql', 0) > before
        if fs is not None:
            fired = fs.fired
            fs.remove()
            if fired:
                ctx.fault('selection_failed')
        if err is not None and not fired:
            raise Violation('exception', f'{tag} raised {err}')
        if err is None:
            check_split(ctx, plan, m, S09.read(out[0], 'train'), S09.read(out[1], 'test'))
        if fired:
            ctx.probe('split_failed' if err else 'split_survived')
        out = None
        if S09.read(ds, 'split dataset') != m.rows:
            raise Violation('source-changed', f'{tag}: the dataset changed')
        if fired:
            try:
                out = run_split(plan['kind'], ds, dict(a))
            except Exception as e:
                raise Violation('exception', f'{tag}: the repetition without failures raised {short(e)}')
            check_split(ctx, plan, m, S09.read(out[0], 'train'), S09.read(out[1], 'test'))
        ctx.log('split', err is None, fired)

    # ---------------------------------------------------------------------------------------------- evaluations
    def evaluation(self, ctx, plan):
        a = plan['args']
        tag = f'{plan["kind"]} evaluation ({"knn" if "knn" in plan else "scripted"} model, {plan["backend"]} train, ' \
              f'{plan["tbackend"] if plan["test"] is not None else "same"} test, {a}), failing users {plan["bad"]}, ' \
              f'failure {plan["fail_at"]}'
        model, test = setup(ctx, plan, 'a')
        before = seams.STATS.get('fault_sql', 0)
        target = test if test is not None else model.interaction_dataset
        fs = None
        backend = plan['tbackend'] if plan['test'] is not None else plan['backend']
        if plan['fail_at'] and backend == 'db':
            seams.arm_sql({plan['fail_at'] + j: 'disk I/O error' for j in range(plan['fail_n'])})
        elif plan['fail_at']:
            fs = FailingSelect(target, plan['fail_at'])
        got, err = None, None
        try:
            got = run_eval(plan, model, test, dict(a))
        except Exception as e:
            err = short(e)
        seams.arm_sql()
        fired = seams.STATS.get('fault_sql', 0) > before
        if fs is not None:
            fired = fs.fired
            fs.remove()
            if fired:
                ctx.fault('selection_failed')
        if plan['bad']:
            ctx.fault('model_failed')
        if err is not None and not fired:
            raise Violation('exception', f'{tag} raised {err}')
        if 'knn' in plan:
            k = ctx.k
            want = run_eval(plan, model, test, dict(a, max_concurrent_threads=1, verbose=False))
            if err is None and not fired and not same(got, want):
                raise Violation('wrong-result', f'{tag}: {got}, with a single worker {want}')
            return
        want = reference(plan, model)
        if err is None and not fired and not agrees(got, want):
            raise Violation('wrong-result', f'{tag}: {got}, expected {want}')
        if err is None and fired:
            users = sorted({r[0] for r in (plan['test'] if plan['test'] is not None else plan['rows'])}, key=str)
            if plan['fail_n'] == 1 or fs is not None:
                # the failing task takes out at most the user it was evaluating
                options = [want] + [reference(dict(plan, skip=[u]), model) for u in users]
                if not any(agrees(got, o) for o in options):
                    raise Violation('wrong-result', f'{tag}: {got}, expected {want} without at most one of the users')
            ctx.probe('user_skipped')
        if fired:
            try:
                again = run_eval(plan, model, test, dict(a))
            except Exception as e:
                raise Violation('exception', f'{tag}: the repetition without failures raised {short(e)}')
            if not agrees(again, want):
                raise Violation('wrong-result', f'{tag}: repeated without failures: {again}, expected {want}')
        ctx.log('eval', err is None, fired)

    def execute(self, ctx, plan):
        (self.split if plan['what'] == 'split' else self.evaluation)(ctx, plan)
        ctx.state((plan['what'], plan['kind'], plan['backend'], plan['fail_at'], ctx.k.signature))

    def shrink(self, plan):
        if plan['fail_n'] > 1:
            yield dict(plan, fail_n=1)
        keys = ('rows',) if plan['what'] == 'split' else ('rows', 'test')
        if plan['what'] == 'split':
            for j in range(len(plan['views'])):
                yield dict(plan, views=plan['views'][:j] + plan['views'][j + 1:])
        elif len(plan['metrics']) > 1:
            yield dict(plan, metrics=plan['metrics'][:1])
        for key in keys:
            rows = plan[key]
            if not rows:
                continue
            size = max(1, len(rows) // 2)
            while size >= 1:
                for s in range(1, len(rows), size):
                    if len(rows) - size >= 2:
                        yield dict(plan, **{key: rows[:s] + rows[s + size:]})
                size //= 2


PROP = S11()
