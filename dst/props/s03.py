from ..base import Prop
from ..dsmodel import norm
from ..harness import Violation
from ..runner import Runner, gen_history, gen_knobs, set_knobs, short


class Iters:
    """Open readers next to the reference snapshot taken when each was opened."""

    def __init__(self, ctx, r):
        self.ctx, self.r, self.open = ctx, r, {}

    def key(self, it, rec):
        if it['to_list']:
            return repr([norm(rec)] if len(it['cols']) == 1 else [norm(x) for x in rec])
        if set(rec) != set(it['cols']):
            raise Violation('wrong-reader', f'{it["tag"]}: returned columns {sorted(rec)}, expected {it["cols"]}')
        return repr([norm(rec[c]) for c in it['cols']])

    def op_open(self, op):
        s = self.r.slots[op['src']]
        if op['cols'] is None:      # every column: a record is in the order of the dataset's own column list
            cols = list(s.ds.columns)
            if sorted(cols) != sorted(set(s.m.columns) | {'rid'}):
                raise Violation('wrong-reader', f'{s.backend} dataset #{op["src"]} lists the columns {cols}, '
                                                f'expected {s.m.columns}')
        else:
            cols = [c for c in op['cols'] if c in s.m.columns] or ['rid']
        want = {}
        for r, v in s.m.rows.items():
            k = repr([r if c == 'rid' else v[c] for c in cols])
            want[k] = want.get(k, 0) + 1
        tag = f'reader {op["it"]} of {s.backend} dataset #{op["src"]} (columns {cols})'
        try:
            gen = iter(s.ds.values(None if op['cols'] is None else list(cols), to_list=op['to_list']))
        except Exception as e:
            raise Violation('exception', f'opening {tag} raised {short(e)}')
        it = {'gen': gen, 'want': want, 'left': sum(want.values()), 'cols': cols, 'to_list': op['to_list'],
              'tag': tag, 'src': op['src'], 'fam': s.fam, 'done': False}
        self.open[op['it']] = it
        self.step(op['it'], 1)

    def step(self, i, n):
        it = self.open[i]
        while n != 0:
            n -= 1
            try:
                rec = next(it['gen'])
            except StopIteration:
                if it['left']:
                    raise Violation('wrong-reader', f'{it["tag"]}: ended with {it["left"]} records missing')
                it['done'] = True
                return
            except Exception as e:
                raise Violation('exception', f'{it["tag"]} raised {short(e)}')
            k = self.key(it, rec)
            if not it['want'].get(k):
                raise Violation('wrong-reader', f'{it["tag"]}: returned {k}, which is not among the records present '
                                                f'when it was opened (or was returned too often)')
            it['want'][k] -= 1
            it['left'] -= 1
            self.ctx.probe('records_read_late')

    def op_step(self, op):
        if op['it'] in self.open:
            self.step(op['it'], op['n'])

    def op_finish(self, op):
        if op['it'] in self.open:
            self.step(op['it'], -1)
            it = self.open.pop(op['it'])
            try:
                next(it['gen'])
            except StopIteration:
                return
            raise Violation('wrong-reader', f'{it["tag"]}: yields again after its end')

    def op_abandon(self, op):
        it = self.open.pop(op['it'], None)
        if it is not None and op.get('explicit') and hasattr(it['gen'], 'close'):
            it['gen'].close()
        del it

    def closed(self, sid, explicit):
        """The readers of a data set that was closed are released as well (after it)."""
        for i in [i for i, it in self.open.items() if it['src'] == sid]:
            it = self.open.pop(i)
            if explicit and hasattr(it['gen'], 'close'):
                it['gen'].close()
            self.ctx.probe('reader_of_closed_released', 0 if it['done'] else 1)
            del it

    def reading(self, slot, sid):
        """An unfinished reader of a different instance of the same family."""
        return any(not it['done'] and it['fam'] == slot.fam and it['src'] != sid for it in self.open.values())


class S03(Prop):
    ID = 'S03'
    RUNS = {'quick': 6000, 'thorough': 120000}
    WALL = {'quick': 120.0, 'thorough': 1500.0}
    RULE = 'one evaluation = one simulated history; a distinct case is a distinct interleaving of reader steps and operations'
    REAL = ['DRecPy.Dataset (memory and database backends)', 'SQLite', 'pandas']
    STUB = ['clock (lock waits pass in simulated time)', 'garbage-collection timing (explicit operation)']
    ASSUMPTIONS = ['a reader counts as opened once its first record was requested',
                   'a database operation that rewrites records may be refused while another instance is being read']

    def gen(self, rng, tier, i):
        backends = rng.choice([['db'], ['db'], ['mem'], ['mem', 'db']])
        ops, _, _ = gen_history(rng, rng.choice([8, 15, 25]), backends, max_rows=rng.choice([6, 12, 20]), audit_p=0.1)
        out, its, nit, slots = [], [], 0, []
        p = rng.choice([0.3, 0.6, 0.9])
        for op in ops:
            out.append(op)
            if op['op'] == 'load' or op.get('dst') is not None:
                slots.append(op['dst'])
            if op['op'] == 'close' and op['src'] in slots:
                slots.remove(op['src'])
                op['explicit'] = rng.random() < 0.4   # its readers are released with it
            while rng.random() < p and slots:
                if its and rng.random() < 0.06:
                    out.append({'op': rng.choice(['ids', 'noids']), 'src': rng.choice(slots)})
                    continue
                x = rng.random()
                if x < 0.3 or not its:
                    cols = rng.sample(['user', 'item', 'interaction', 'timestamp', 'tag', 'uid', 'iid'], rng.randint(1, 5))
                    if rng.random() < 0.7:
                        cols.append('rid')
                    if rng.random() < 0.3:
                        cols = None
                    out.append({'op': 'open', 'src': rng.choice(slots), 'it': nit, 'cols': cols,
                                'to_list': rng.random() < 0.5})
                    its.append(nit)
                    nit += 1
                elif x < 0.75:
                    out.append({'op': 'step', 'it': rng.choice(its), 'n': rng.choice([1, 1, 2, 5])})
                elif x < 0.9:
                    k = rng.choice(its)
                    its.remove(k)
                    out.append({'op': 'finish', 'it': k})
                else:
                    k = rng.choice(its)
                    its.remove(k)
                    out.append({'op': 'abandon', 'it': k, 'explicit': rng.random() < 0.5})
        return {'ops': out, 'knobs': gen_knobs(rng)}

    def execute(self, ctx, plan):
        set_knobs(plan['knobs'])
        r = Runner(ctx, plan)
        its = Iters(ctx, r)
        r.tolerate = lambda op, s, e: 'locked' in str(e) and s.backend == 'db' and its.reading(s, op['src'])
        hist = []
        for op in plan['ops']:
            if op['op'] in ('open', 'step', 'finish', 'abandon'):
                if op['op'] == 'open' and op['src'] not in r.slots:
                    continue
                getattr(its, 'op_' + op['op'])(op)
                hist.append((op['op'], op.get('it')))
            elif r.do(op):
                hist.append((op['op'], op.get('copy'), op.get('kind'), len(its.open)))
                if op['op'] == 'close' and op['explicit']:
                    its.closed(op['src'], op['twice'])
        for i in sorted(its.open):
            its.step(i, -1)
        its.open.clear()
        r.tolerate = None
        for sid in sorted(r.slots):
            r.audit(sid, 'at the end')
        ctx.state(hist)


PROP = S03()
