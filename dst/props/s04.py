import errno

from .. import seams
from ..base import Prop
from ..dsmodel import FUNCS, Boom
from ..runner import OpFailed, Runner, gen_history, gen_knobs, set_knobs

EXC = {'boom': Boom, 'stop': StopIteration, 'kbd': KeyboardInterrupt, 'mem': MemoryError, 'key': KeyError}


class Fault:
    """One planned fault, armed only while the operation it belongs to runs."""

    def __init__(self, ctx, f):
        self.ctx, self.f, self.hit = ctx, f, 0

    def arm(self):
        f = self.f
        if f['kind'] == 'sql':
            seams.arm_sql({f['n']: f['msg']})
            self.base = seams.STATS.get('fault_sql', 0)
        elif f['kind'] == 'disk':
            self.ctx.shim.arm(self.ctx.path('data'), fail_at=f['n'], errno=f['errno'], sticky=f['sticky'])
        elif f['kind'] == 'mem':
            seams.arm_mem({f['site']: f['which']})
            self.base = seams.STATS.get('fault_mem_' + f['site'], 0)

    def disarm(self):
        f = self.f
        if f['kind'] == 'sql':
            self.hit += seams.STATS.get('fault_sql', 0) - self.base
            seams.arm_sql()
        elif f['kind'] == 'disk':
            self.ctx.shim.disarm()
            self.hit += self.ctx.shim.fired()
            self.ctx.fault({errno.ENOSPC: 'disk_full', errno.EIO: 'disk_io_error'}[f['errno']] +
                           {0: '', 1: '', 2: '_persistent'}[f['sticky']], self.ctx.shim.fired())
        elif f['kind'] == 'mem':
            self.hit += seams.STATS.get('fault_mem_' + f['site'], 0) - self.base
            seams.arm_mem({})

    def fired(self):
        return self.hit > 0

    def wrap(self, fn):
        """A transformation given by the caller that fails at its n-th call."""
        calls = [0]

        def wrapped(x):
            calls[0] += 1
            if calls[0] == self.f['n']:
                self.hit += 1
                self.ctx.fault('callback_' + self.f['exc'])
                raise EXC[self.f['exc']]('planned failure')
            return fn(x)
        return wrapped


def gen_fault(rng, op):
    if op['op'] == 'apply' and rng.random() < 0.5:
        return {'kind': 'cb', 'n': rng.choice([1, 2, 3, 4, 6, 9]), 'exc': rng.choice(sorted(EXC))}
    x = rng.random()
    if x < 0.55:
        return {'kind': 'sql', 'n': rng.choice([1, 2, 3, 4, 5, 6, 8, 10, 12, 15, 20, 25]),
                'msg': rng.choice(['disk I/O error', 'database or disk is full', 'out of memory'])}
    return {'kind': 'disk', 'n': rng.choice([1, 1, 2, 3, 4, 5, 7, 9]), 'errno': rng.choice([errno.ENOSPC, errno.EIO]),
            'sticky': rng.choice([0, 0, 2])}


class S04(Prop):
    ID = 'S04'
    RUNS = {'quick': 6000, 'thorough': 120000}
    WALL = {'quick': 120.0, 'thorough': 1500.0}
    RULE = ('one evaluation = one simulated history with planned faults; a distinct case is a distinct '
            '(operation, fault, outcome) history')
    REAL = ['DRecPy.Dataset (memory and database backends)', 'SQLite (its disk writes go through the disk seam)', 'pandas']
    STUB = ['clock', 'disk errors (system call seam)', 'statement errors (statement seam)']
    ASSUMPTIONS = ['an I/O error is transient, or the disk stays full for the rest of the operation',
                   'one fault per operation']

    def gen(self, rng, tier, i):
        backends = rng.choice([['db'], ['db'], ['db'], ['mem', 'db'], ['mem']])
        ops, _, _ = gen_history(rng, rng.choice([6, 12, 20]), backends, max_rows=rng.choice([6, 15, 30]), audit_p=0.05,
                                extra=['apply'] * 4 + ['ids'] * 3)
        p = rng.choice([0.15, 0.35, 0.7])
        for op in ops:
            if op['op'] in ('select', 'drop', 'unique', 'copy', 'apply', 'ids', 'noids', 'read', 'load') \
                    and rng.random() < p:
                op['fault'] = gen_fault(rng, op)
        return {'ops': ops, 'knobs': gen_knobs(rng)}

    def execute(self, ctx, plan):
        set_knobs(plan['knobs'])
        r = Runner(ctx, plan)
        hist = []
        for op in plan['ops']:
            f = None
            if op.get('fault'):
                f = Fault(ctx, op['fault'])
                r.next_fault = f
            out = 'ok'
            saved = dict(FUNCS)
            try:
                if f is not None and op['fault']['kind'] == 'cb':
                    FUNCS[op['fn']] = f.wrap(FUNCS[op['fn']])
                    self.model_functions(r, saved)
                if not r.do(op):
                    out = 'skip'
            except OpFailed:
                out = 'failed'
            finally:
                FUNCS.clear()
                FUNCS.update(saved)
                r.next_fault = None
            hist.append((op['op'], out, op.get('fault')))
            if f is not None and f.fired():
                why = f'after {op["op"]} on #{op.get("src")} met {op["fault"]["kind"]} fault ({out})'
                for sid in sorted(r.slots):
                    r.audit(sid, why)
        for sid in sorted(r.slots):
            r.audit(sid, 'at the end')
        ctx.state(hist)

    def model_functions(self, r, saved):
        """The reference model applies the plain transformation."""
        for s in r.slots.values():
            if 'apply' not in s.m.__dict__:
                def apply(col, fn, m=s.m):
                    new = {k: saved[fn](v[col]) for k, v in m.rows.items()}
                    from ..dsmodel import norm
                    for k, x in new.items():
                        m.rows[k][col] = norm(x)
                s.m.apply = apply

    def shrink(self, plan):
        yield from super().shrink(plan)
        for j, op in enumerate(plan['ops']):
            if op.get('fault'):
                p = dict(plan)
                p['ops'] = plan['ops'][:j] + [{k: v for k, v in op.items() if k != 'fault'}] + plan['ops'][j + 1:]
                yield p


PROP = S04()
