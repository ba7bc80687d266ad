from .. import seams
from ..base import Prop
from ..dsmodel import gen_table, norm
from ..harness import Violation
from ..runner import OpFailed, Runner, gen_history, gen_knobs, load, set_knobs
from .s04 import Fault


class S05(Prop):
    ID = 'S05'
    RUNS = {'quick': 4000, 'thorough': 80000}
    WALL = {'quick': 150.0, 'thorough': 1800.0}
    RULE = ('one evaluation = one simulated history with allocation failures; a distinct case is a distinct '
            '(scenario, operation, failing allocation, outcome) history')
    REAL = ['DRecPy.Dataset (memory and database backends)', 'DRecPy nearest-neighbour recommenders', 'SQLite', 'pandas',
            'scipy.sparse']
    STUB = ['allocation failures of sparse matrices and of the table reader (allocation seam)']
    ASSUMPTIONS = ['an allocation failure shows as MemoryError at a matrix construction or while a table is read']

    def gen(self, rng, tier, i):
        sc = rng.choice(['vec', 'vec', 'vec', 'load', 'knn'])
        if sc == 'knn':
            cols, rows, types = gen_table(rng, max_rows=rng.choice([12, 25]), min_rows=6, dup=False, extra=False,
                                          interactions=[1, 2, 3, 4, 5])
            return {'scenario': sc, 'columns': cols, 'rows': rows, 'backend': rng.choice(['mem', 'db']),
                    'model': rng.choice(['user', 'item']), 'k': rng.choice([1, 3, 10]), 'm': rng.choice([0, 1, 2]),
                    'sim': rng.choice(['jaccard', 'jaccard', 'cosine', 'pearson']),
                    'agg': rng.choice(['mean', 'weighted_mean']), 'calls': [rng.choice([1, 2, 3, 4])],
                    'retry': rng.random() < 0.5}
        mem = sc == 'load'
        backends = ['mem'] if mem else rng.choice([['db'], ['mem'], ['mem', 'db']])
        ops, _, _ = gen_history(rng, rng.choice([8, 16, 28]), backends, max_rows=rng.choice([6, 15, 30]), audit_p=0.1,
                                extra=['vec'] * 14 + ['ids'] * 3 + ['lookup'] * 2)
        out = [ops[0], {'op': 'ids', 'src': ops[0]['dst']}] + ops[1:]
        p = rng.choice([0.2, 0.5, 0.9])
        for op in out:
            if op['op'] == 'vec' and rng.random() < p:
                op['fault'] = rng.choice([
                    {'kind': 'mem', 'site': 'matrix', 'which': 'all'}, {'kind': 'mem', 'site': 'csr', 'which': 'all'},
                    {'kind': 'mem', 'site': 'trans', 'which': rng.choice(['all', [1], [2]])},
                    {'kind': 'mem', 'site': 'csr', 'which': [rng.choice([1, 1, 2, 3])]},
                    {'kind': 'mem', 'site': 'csr', 'which': [1, 2]}])
            if op['op'] == 'load' and mem:
                op['fault'] = {'kind': 'mem', 'site': 'read_csv', 'which': rng.choice([[1], 'all'])}
        return {'scenario': sc, 'ops': out, 'knobs': gen_knobs(rng)}

    def execute(self, ctx, plan):
        if plan['scenario'] == 'knn':
            return self.knn(ctx, plan)
        set_knobs(plan['knobs'])
        r = Runner(ctx, plan)
        hist = [plan['scenario']]
        for op in plan['ops']:
            f = None
            if op.get('fault'):
                r.next_fault = f = Fault(ctx, op['fault'])
            out = 'ok'
            try:
                if not r.do(op):
                    out = 'skip'
            except OpFailed as e:
                out = 'failed'
                if op['fault']['site'] != 'csr':
                    raise Violation('no-fallback', f'{e} although there was enough memory for the fallback')
                if 'MemoryError' not in str(e):
                    raise Violation('wrong-error', f'memory ran short, but {e}')
            finally:
                r.next_fault = None
            hist.append((op['op'], out, op.get('kind'), str(op.get('fault'))))
            if f is not None and f.fired():
                for sid in sorted(r.slots):
                    r.audit(sid, f'after a memory shortage in {op["op"]}')
                if op['op'] == 'vec':
                    for k in range(2):          # the same request and another one, with enough memory again
                        for kind in ('user', 'item'):
                            r.op_vec({'src': op['src'], 'kind': kind, 'idx': op['idx'] + k})
        for sid in sorted(r.slots):
            r.audit(sid, 'at the end')
        ctx.state(hist)

    def knn(self, ctx, plan):
        from DRecPy.Recommender.Baseline import ItemKNN, UserKNN
        ds = load(ctx, plan['backend'], plan['columns'], plan['rows'], 'knn')
        users = sorted({r[0] for r in plan['rows']}, key=str)
        items = sorted({r[1] for r in plan['rows']}, key=str)

        def make():
            cls = UserKNN if plan['model'] == 'user' else ItemKNN
            return cls(k=plan['k'], m=plan['m'], sim_metric=plan['sim'], aggregation=plan['agg'], shrinkage=None,
                       verbose=False)

        def answers(m):
            return [norm(m.predict(u, i, skip_errors=True)) for u in users for i in items]

        ref = make()
        ref.fit(ds)
        want = answers(ref)
        m = make()
        seams.arm_mem({'csr': plan['calls']})
        raised = None
        try:
            m.fit(ds)
        except MemoryError as e:
            raised = str(e)
        finally:
            seams.arm_mem({})
        fired = seams.STATS.get('fault_mem_csr', 0) > 0
        if raised and not fired:
            raise Violation('exception', f'fit raised MemoryError: {raised}')
        ctx.state((plan['scenario'], plan['model'], plan['sim'], plan['calls'], fired, bool(raised)))
        if raised:
            ctx.probe('knn_memory_error')
            m.fit(ds)                       # enough memory again
        elif fired:
            ctx.probe('knn_fallback')
        got = answers(m)
        for (u, i), g, w in zip([(u, i) for u in users for i in items], got, want):
            same = (g is None and w is None) or (g is not None and w is not None and abs(g - w) < 1e-9)
            if not same:
                raise Violation('wrong-prediction', f'prediction for ({u!r}, {i!r}) after a memory shortage '
                                                    f'({"reported" if raised else "survived"}): {g}, with enough memory {w}')
        ctx.log('knn', got)


PROP = S05()
