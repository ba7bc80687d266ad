import copy
import gc
import os

from .. import net
from ..base import Prop
from ..dsmodel import gen_table, norm
from ..harness import Violation
from ..models import gen_knn, make_knn
from ..runner import Runner, gen_history, gen_knobs, load, set_knobs, short
from . import s07, s08
from .s06 import key


def gen_turns(rng, n):
    return {'style': rng.choice(['fine', 'coarse', 'mixed', 'mixed']), 'seed': rng.getrandbits(32),
            'crash': {str(rng.randrange(n)): int(10 ** rng.uniform(0, 2))} if rng.random() < 0.3 else None}


def linearizable(ops, first):
    """Register history: ops = [kind ('w'|'r'), value, invoked, returned (None: never)].  Small: searched exhaustively."""
    ops = [o for o in ops if not (o[0] == 'r' and o[3] is None)]
    seen = set()

    def go(left, value):
        if not any(ops[j][3] is not None for j in left):
            return True
        if (left, value) in seen:
            return False
        seen.add((left, value))
        horizon = min(ops[j][3] for j in left if ops[j][3] is not None)
        for j in left:
            kind, v, inv, _ = ops[j]
            if inv > horizon:
                continue
            if kind == 'w' and go(left - {j}, v):
                return True
            if kind == 'r' and v == value and go(left - {j}, value):
                return True
        return False
    return go(frozenset(range(len(ops))), first)


class S20(Prop):
    ID = 'S20'
    RUNS = {'quick': 900, 'thorough': 40000}
    WALL = {'quick': 170.0, 'thorough': 1800.0}
    RULE = ('one evaluation = several simulated processes running side by side on the same data folder or target file; a '
            'distinct case is a distinct (processes, turns, outcomes)')
    REAL = ['DRecPy.Dataset (both backends, start-up clean-up, integrated datasets)', 'DRecPy.Recommender.RecommenderABC.save/'
            'load', 'leave_k_out', 'SQLite', 'pandas', 'file system', 'process table']
    STUB = ['process scheduling at file system operations', 'crash points (disk seam)', 'network transport',
            'interpreter start-up (fresh import in a forked process)']
    ASSUMPTIONS = ['processes are interleaved between file system operations (opens, writes, renames, removals)',
                   'process crashes, no power loss']

    def gen(self, rng, tier, i):
        sc = rng.choice(['save', 'save', 'save', 'folder', 'folder', 'get', 'get'])
        plan = {'scenario': sc, 'knobs': gen_knobs(rng)}
        if sc == 'folder':
            plan['procs'] = []
            for _ in range(rng.choice([2, 2, 3])):
                ops, _, _ = gen_history(rng, rng.choice([1, 3, 6]), rng.choice([['db'], ['db', 'mem']]), max_rows=8,
                                        audit_p=0.3, extra=['close'])
                plan['procs'].append({'ops': ops, 'end': rng.choice(['close', 'drop', 'close', 'exit']), 'start': rng.random() < 0.8})
            if rng.random() < 0.6:
                ops, _, _ = gen_history(rng, rng.choice([1, 3]), ['db'], max_rows=6, audit_p=0.0)
                plan['dead'] = [{'ops': ops} for _ in range(rng.choice([1, 2]))]
            else:
                plan['dead'] = []
        elif sc == 'get':
            name = rng.choice(sorted(s08.SPEC))
            plan.update(name=name, users=[rng.choice([9, 10, 11, 12]) for _ in range(rng.randint(1, 3))],
                        data_seed=rng.getrandbits(20), procs=[],
                        folder=rng.random() < 0.6)
            if rng.random() < 0.5:              # the archive is there; its split is generated and loaded all the time
                plan.update(name=rng.choice([n for n in sorted(s08.SPEC) if 'train' not in s08.SPEC[n]]), folder=True,
                            ready=True)
                for _ in range(rng.choice([2, 3, 3])):
                    plan['procs'].append({'calls': [[rng.choice(['train', 'test', 'test']), rng.choice(['mem', 'mem', 'db'])]
                                                    for _ in range(rng.choice([1, 3, 5]))], 'fault': None})
            else:
                for _ in range(rng.choice([2, 2, 3])):
                    plan['procs'].append({'calls': [[rng.choice(['full', 'train', 'test', 'train']),
                                                     rng.choice(['mem', 'mem', 'db'])] for _ in range(rng.choice([1, 2]))],
                                          'fault': rng.choice([None, None, None, 'drop', '503'])})
        else:
            fmt = rng.choice(['csv', 'csv', 'sqlite', 'model'])
            plan.update(fmt=fmt, old=rng.random() < 0.6, contents=[], procs=[])
            cols, rows, types = gen_table(rng, max_rows=rng.choice([6, 20]), min_rows=3, dup=False, strings=False,
                                          interactions=[1, 2, 3, 4, 5], extra=False)
            plan['columns'] = cols
            n = rng.choice([2, 2, 3])
            for j in range(n * 2 + 1):
                k = rng.randint(2, len(rows)) if len(rows) > 2 else len(rows)
                sub = rng.sample(rows, k)
                # every content is recognisable
                plan['contents'].append([[r[0], r[1], 1 + (r[2] + j) % 5] for r in sub] + [[7000 + j, sub[0][1], 1]])
            plan['knn'] = gen_knn(rng)
            c = 0
            for j in range(n):
                steps = []
                for _ in range(rng.choice([1, 2])):
                    if rng.random() < 0.6 or j == 0:
                        c += 1
                        steps.append(['w', c, rng.choice(['mem', 'db']) if fmt == 'csv' else 'db' if fmt == 'sqlite' else 'mem'])
                    else:
                        steps.append(['r', None, rng.choice(['mem', 'db'])])
                plan['procs'].append(steps)
        plan['turns'] = gen_turns(rng, len(plan['procs']))
        return plan

    def execute(self, ctx, plan):
        getattr(self, plan['scenario'])(ctx, plan)

    # ------------------------------------------------------------------------------------------------ one target file
    def save(self, ctx, plan):
        from DRecPy.Dataset import InteractionDataset
        from DRecPy.Recommender import RecommenderABC
        os.makedirs(ctx.path('out'))
        target = ctx.path('out', 'shared.' + {'csv': 'csv', 'sqlite': 'sqlite', 'model': 'bin'}[plan['fmt']])
        cols = plan['columns']
        wants = [self.bag(rows) for rows in plan['contents']]

        def prepare(c, backend, tag):
            set_knobs(plan['knobs'])
            ds = load(ctx, backend, cols, plan['contents'][c], tag, knobs=plan['knobs'])
            if plan['fmt'] == 'model':
                m = make_knn(plan['knn'])
                m.verbose = False
                m.fit(ds)
                return m
            return ds

        def read(backend):
            """Index of the content found (None: no file)."""
            if not os.path.exists(target):
                return None
            if plan['fmt'] == 'model':
                m = RecommenderABC.load(target)
                recs = m.interaction_dataset.values_list(columns=cols, to_list=True)
            else:
                kw = {} if plan['fmt'] == 'sqlite' else {'columns': list(cols)}
                ds = InteractionDataset(target, in_memory=backend == 'mem', verbose=False, **kw)
                recs = ds.values_list(columns=cols, to_list=True)
                if hasattr(ds, 'close'):
                    ds.close()
            b = self.bag(recs)
            if b not in wants:
                raise Violation('torn-file', f'a process read {str(b)[:300]} from {os.path.basename(target)}, which no '
                                             f'process has saved')
            return wants.index(b)

        if plan['old']:
            ctx.fork(lambda: prepare(0, 'db' if plan['fmt'] == 'sqlite' else 'mem', 'old').save(target))

        log = ctx.path('events')        # survives crashes of the process that wrote it

        def proc(j):
            def go(stamp):
                fd = os.open(log + str(j), os.O_WRONLY | os.O_CREAT | os.O_APPEND)
                for n, (kind, c, backend) in enumerate(plan['procs'][j]):
                    obj = prepare(c, backend, f'src{j}-{n}') if kind == 'w' else None
                    os.write(fd, f'{kind} {c} {stamp()} '.encode())
                    try:
                        if kind == 'w':
                            obj.save(target)
                        else:
                            c = read(backend)
                    except Violation:
                        raise
                    except Exception as e:
                        raise Violation('exception', f'{"saving to" if kind == "w" else "loading"} a {plan["fmt"]} file that '
                                                     f'other processes use raised {short(e)}')
                    os.write(fd, f'{stamp()} {c}\n'.encode())
                os.close(fd)
            return go
        t = plan['turns']
        out = ctx.processes([proc(j) for j in range(len(plan['procs']))], t['seed'], t['style'], t['crash'])
        ops = []
        for j in range(len(plan['procs'])):
            if not os.path.exists(log + str(j)):
                continue
            for line in open(log + str(j)):
                f = line.split()
                if len(f) >= 3:
                    v = f[1] if f[0] == 'w' or len(f) < 5 else f[4]
                    ops.append((f[0], None if v == 'None' else int(v), int(f[2]), int(f[3]) if len(f) == 5 else None))
        final = ctx.fork(lambda: read('mem'))[1]
        ops.append(('r', final, 1 << 40, (1 << 40) + 1))
        if not linearizable(ops, 0 if plan['old'] else None):
            raise Violation('lost-save', f'saves and loads of one {plan["fmt"]} file by several processes cannot be explained by '
                                         f'any order of them: {ops} (first content: {0 if plan["old"] else None})')
        left = [f for f in sorted(os.listdir(ctx.path('out'))) if f != os.path.basename(target)]
        if left and not any(o[0] == 'crash' for o in out):
            raise Violation('left-over', f'{left} left next to the saved file')
        ctx.probe('register_histories')
        ctx.state((plan['fmt'], plan['procs'], [o[0] for o in out], [(o[0], o[1]) for o in ops], t['style']))

    def bag(self, rows):
        return sorted(repr([key(norm(x)) for x in r]) for r in rows)

    # ------------------------------------------------------------------------------------------------ one data folder
    def folder(self, ctx, plan):
        data = ctx.path('data')
        os.makedirs(os.path.join(data, 'ds'))
        for f, c in s07.FOREIGN.items():
            with open(os.path.join(data, f), 'wb') as fh:
                fh.write(c)
        base = s07.S07()
        base.data = data

        def own(tag):
            c = copy.copy(ctx)
            c.scratch = ctx.path(tag)
            os.makedirs(c.scratch)
            return c

        def dead(p):
            def go():
                s07.restart()
                set_knobs(plan['knobs'])
                r = Runner(ctx, plan)
                for op in p['ops']:
                    r.do(op)
                s07.LEAKED.append(r)
            return go
        for p in plan['dead']:
            ctx.fork(dead(p))

        def proc(j, p):
            def go(stamp):
                s07.restart()
                set_knobs(plan['knobs'])
                r = Runner(own(f'p{j}'), plan)
                for op in p['ops']:
                    r.do(op)
                for sid in sorted(r.slots):
                    r.audit(sid, 'at the end')
                if p['end'] == 'exit':
                    s07.LEAKED.append(r)
                    return
                for sid in sorted(r.slots):
                    r.op_close({'src': sid, 'explicit': p['end'] == 'close'})
                r.slots.clear()
                gc.collect()
            return go
        t = plan['turns']
        out = ctx.processes([proc(j, p) for j, p in enumerate(plan['procs'])], t['seed'], t['style'], t['crash'])
        base.check_foreign('after all processes ended')
        if all(o[0] == 'ok' for o in out) and all(p['end'] != 'exit' for p in plan['procs']):
            base.expect_only(set(), 'after all processes closed their datasets')

        def last():
            s07.restart()
            base.expect_only(set(), 'after the last start')
        ctx.fork(last)
        ctx.state(([[o['op'] for o in p['ops']] + [p['end']] for p in plan['procs']], [o[0] for o in out], t['style'], len(plan['dead'])))

    # ------------------------------------------------------------------------------------------------ one download
    def get(self, ctx, plan):
        net.install()
        from DRecPy.Dataset import available_datasets, integrated_datasets as I
        name = plan['name']
        if name not in available_datasets():
            ctx.probe('dataset_not_available')
            return
        data, files = s08.payload(plan, name)
        net.SERVED.clear()
        net.SERVED[I.DATASETS[name].url] = data
        base = s08.S08()
        base.files, base.spec, base.name, base.seen = files, s08.SPEC[name], name, {}

        def proc(j, p):
            def go(stamp):
                net.arm({'1': p['fault']} if p['fault'] else {})
                outcomes, splits = [], {}
                for what, backend in p['calls']:
                    try:
                        got = base.request(what, backend)
                    except Violation:
                        raise
                    except Exception as e:
                        if not sum(net.NET['fired'].values()) or 'raised' in outcomes:
                            raise Violation('exception', f'{name}: get_{what}_dataset ({backend}) raised {short(e)}')
                        outcomes.append('raised')
                        continue
                    outcomes.append('ok')
                    base.check(what, backend, got, j, splits)
                for k, v in net.NET['fired'].items():
                    ctx.fault('net_' + k, v)
                return {'outcomes': outcomes, 'splits': splits}
            return go
        t = plan['turns']
        if plan.get('ready'):
            ctx.fork(lambda: base.process(ctx, {'calls': [['full', 'mem']], 'fault': None}, None, 'first') and None)
        if not plan['folder']:
            os.rmdir(ctx.path('data'))
        out = ctx.processes([proc(j, p) for j, p in enumerate(plan['procs'])], t['seed'], t['style'], t['crash'])
        for st, o in out:
            for what, b in (o or {}).get('splits', {}).items():
                base.same(what, b)
        st, o = ctx.fork(lambda: base.process(ctx, {'calls': [['full', 'mem'], ['train', 'db'], ['test', 'mem'], ['test', 'db'],
                                                              ['train', 'mem']], 'fault': None}, None, 'last'))
        for what, b in o['splits'].items():
            base.same(what, b)
        base.complementary(name)
        if any(x and 'ok' in x['outcomes'] for _, x in out) and o['requests']:
            raise Violation('repeated-download', f'{name} was downloaded again although a process had stored it')
        left = [f for f in sorted(os.listdir(ctx.path('data'))) if f != name]
        if left and not any(s == 'crash' for s, _ in out):
            raise Violation('left-over', f'{left} left in the data folder')
        ctx.state((name, plan['procs'], [(s, x and x['outcomes']) for s, x in out], t['style']))

    def shrink(self, plan):
        if plan['turns']['crash']:
            yield dict(plan, turns=dict(plan['turns'], crash=None))
        for j in range(len(plan['procs'])):
            if len(plan['procs']) > 1:
                yield dict(plan, procs=plan['procs'][:j] + plan['procs'][j + 1:])
        if plan.get('dead'):
            yield dict(plan, dead=[])
        for j, p in enumerate(plan['procs']):
            if isinstance(p, list):
                for k in range(len(p)):
                    yield dict(plan, procs=plan['procs'][:j] + [p[:k] + p[k + 1:]] + plan['procs'][j + 1:])
                continue
            field = 'ops' if 'ops' in p else 'calls'
            for k in range(len(p[field]) - 1, 0, -1):
                q = dict(p, **{field: p[field][:k] + p[field][k + 1:]})
                yield dict(plan, procs=plan['procs'][:j] + [q] + plan['procs'][j + 1:])
        if plan['scenario'] == 'save':
            for n in (2, 5):
                if any(len(c) > n + 1 for c in plan['contents']):
                    yield dict(plan, contents=[c[:n] + c[-1:] for c in plan['contents']])
        for seed in range(3):
            yield dict(plan, turns=dict(plan['turns'], style='coarse', seed=plan['turns']['seed'] * 3 + seed)) \
                if plan['turns']['style'] != 'coarse' else dict(plan, turns=dict(plan['turns'], crash=None))


PROP = S20()
