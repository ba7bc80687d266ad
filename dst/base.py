"""Base class of the simulated properties."""


def gen_sched(rng):
    """How threads are preempted: at a constant rate, after log-uniform gaps, around writes of shared state, or around a few of
    those."""
    kind = rng.choice(['rate', 'gaps', 'hot', 'focus', 'focus'])
    if kind == 'rate':
        return {'rate': rng.choice([0.0, 0.001, 0.01, 0.05, 0.2])}
    if kind == 'gaps':
        return {'rate': rng.choice([-300, -3000, -20000])}
    if kind == 'focus':
        return {'rate': rng.choice([0.0, 0.0, -20000]), 'hot': rng.choice([0.3, 0.8]), 'park': rng.choice([0.0, 0.5, 0.9]),
                'focus': rng.choice([2, 5, 15, 40])}
    return {'rate': rng.choice([0.0, 0.001, 0.01, -3000]), 'hot': rng.choice([0.02, 0.1, 0.4]), 'park': rng.choice([0.0, 0.5, 0.9])}


class Prop:
    ID = None
    RUNS = {'quick': 200, 'thorough': 5000}
    WALL = {'quick': 200.0, 'thorough': 2400.0}
    MIN_WALL = 45.0
    LEVEL = 'exploration'
    RULE = ''
    REAL = []
    STUB = []
    ASSUMPTIONS = []

    def gen(self, rng, tier, i):
        raise NotImplementedError

    def execute(self, ctx, plan):
        raise NotImplementedError

    def shrink(self, plan):
        """Yields smaller plans.  Default: drop chunks of the operation list, then simplify rows."""
        ops = plan.get('ops')
        if ops:
            n = len(ops)
            size = max(1, n // 2)
            while True:
                for s in range(0, n, size):
                    p = dict(plan)
                    p['ops'] = ops[:s] + ops[s + size:]
                    yield p
                if size == 1:
                    break
                size = max(1, size // 2)
        rows = plan.get('rows')
        if rows and len(rows) > 2:
            for s in range(len(rows) - 1, -1, -1):
                p = dict(plan)
                p['rows'] = rows[:s] + rows[s + 1:]
                yield p
