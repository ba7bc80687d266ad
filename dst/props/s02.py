from ..base import Prop
from ..dsmodel import gen_table
from ..runner import Runner, gen_history, gen_knobs, set_knobs


class S02(Prop):
    ID = 'S02'
    RUNS = {'quick': 4000, 'thorough': 80000}
    WALL = {'quick': 120.0, 'thorough': 1500.0}
    RULE = 'one evaluation = one simulated history; a distinct case is a distinct (operation, backend) history'
    REAL = ['DRecPy.Dataset (memory and database backends)', 'SQLite', 'pandas', 'scipy.sparse']
    STUB = ['clock', 'garbage-collection timing (explicit operation)']
    ASSUMPTIONS = ['vector entries of pairs with several records are not compared',
                   'identifiers of records filtered out of a view are not looked up']

    def gen(self, rng, tier, i):
        backends = rng.choice([['db'], ['mem'], ['mem', 'db']])
        big = rng.random() < 0.04
        n = rng.choice([10, 20, 35]) if not big else 10

        def table(r):
            if big:
                n_users, n_items = r.choice([(127, 9), (128, 5), (129, 6), (200, 7), (5, 130), (6, 260)])
                cols, rows, types = gen_table(r, max_rows=8, strings=False, n_users=4, n_items=4, contiguous=True)
                rows = [[u, u % n_items, (u % 5) + 1] for u in range(n_users)] if n_users > n_items else \
                       [[v % n_users, v, (v % 5) + 1] for v in range(n_items)]
                r.shuffle(rows)
                return ['user', 'item', 'interaction'], rows, {'user': 'int', 'item': 'int', 'interaction': 'num',
                                                               'rid': 'int'}
            return gen_table(r, max_rows=r.choice([6, 15, 30]), dup=r.random() < 0.5)

        ops, _, _ = gen_history(rng, n, backends, audit_p=0.1, families=1 if big else None, table=table,
                                extra=['vec'] * 8 + ['lookup'] * 6 + ['ids'] * 3)
        first = [o['dst'] for o in ops if o['op'] == 'load'][:1]
        ops.insert(1, {'op': 'ids', 'src': first[0]})
        return {'ops': ops, 'knobs': gen_knobs(rng)}

    def execute(self, ctx, plan):
        set_knobs(plan['knobs'])
        r = Runner(ctx, plan)
        hist = []
        for op in plan['ops']:
            if r.do(op):
                hist.append((op['op'], op.get('copy'), op.get('kind'), r.slots[op['src']].backend
                             if op.get('src') in r.slots else None))
        for sid in sorted(r.slots):
            r.audit(sid, 'at the end')
            for kind in ('user', 'item'):
                for idx in range(3):
                    r.op_vec({'src': sid, 'kind': kind, 'idx': idx * 7})
                    r.op_lookup({'src': sid, 'kind': kind, 'idx': idx * 7})
        ctx.state(hist)


PROP = S02()
