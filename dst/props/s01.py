from ..base import Prop
from ..dsmodel import gen_table
from ..runner import Runner, gen_history, gen_knobs, set_knobs


class S01(Prop):
    ID = 'S01'
    RUNS = {'quick': 6000, 'thorough': 120000}
    WALL = {'quick': 120.0, 'thorough': 1500.0}
    RULE = 'one evaluation = one simulated history; a distinct case is a distinct (operation, backend, outcome) history'
    REAL = ['DRecPy.Dataset (memory and database backends)', 'SQLite', 'pandas', 'file system']
    STUB = ['clock', 'garbage-collection timing (explicit operation)']
    ASSUMPTIONS = ['identifiers without spaces or commas (query syntax limitation)',
                   'a column holds values of one type, the type of its first row']

    def gen(self, rng, tier, i):
        backends = rng.choice([['db'], ['db'], ['mem'], ['mem', 'db']])
        n = rng.choice([8, 15, 25, 40])
        if rng.random() < 0.015:        # a large table: statements with many arguments, several pages
            ops, _, _ = gen_history(rng, rng.choice([4, 8]), backends, audit_p=0.3, families=1,
                                    extra=['drop'] * 8, table=lambda r: gen_table(r, max_rows=1600, min_rows=501))
            return {'ops': ops, 'knobs': dict(gen_knobs(rng), chunk=rng.choice([None, 100, 499]))}
        ops, _, _ = gen_history(rng, n, backends, max_rows=rng.choice([6, 15, 30]),
                                audit_p=rng.choice([0, 0.2, 0.6]))
        return {'ops': ops, 'knobs': gen_knobs(rng)}

    def execute(self, ctx, plan):
        set_knobs(plan['knobs'])
        r = Runner(ctx, plan)
        hist = []
        for op in plan['ops']:
            if r.do(op):
                hist.append((op['op'], op.get('copy'), op.get('kind'), r.slots[op['src']].backend
                             if op.get('src') in r.slots else None))
        for sid in sorted(r.slots):
            r.audit(sid, 'at the end')
        ctx.state(hist)


PROP = S01()
