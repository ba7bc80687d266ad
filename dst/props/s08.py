import errno
import io
import os
import threading
import zipfile

from .. import net
from ..base import Prop, gen_sched
from ..dsmodel import norm
from ..harness import Violation
from ..runner import short
from .s06 import key

# what the integrated datasets look like on the wire (public archive layouts)
SPEC = {
    'ml-100k': dict(folder='ml-100k', full='u.data', train='ua.base', test='ua.test', sep='\t', header=False, ts=True),
    'ml-1m': dict(folder='ml-1m', full='ratings.dat', sep='::', header=False, ts=True),
    'ml-10m': dict(folder='ml-10M100K', full='ratings.dat', sep='::', header=False, ts=True),
    'ml-20m': dict(folder='ml-20m', full='ratings.csv', sep=',', header=True, ts=True),
    'bx': dict(folder=None, full='BX-Book-Ratings.csv', sep=';', header=True, ts=False),
}
K, MIN = 10, 10


def rows_of(plan, name):
    rng = __import__('random').Random(plan['data_seed'])
    spec = SPEC[name]
    rows, t = [], 0
    for u, n in enumerate(plan['users']):
        for j in range(n):
            t += 1
            item = f'{j:03d}X\xe9' if name == 'bx' and j % 3 == 0 else (f'{j:03d}45A' if name == 'bx' else 10 + 3 * j)
            rows.append([u * 2 + 1, item, rng.randint(0, 10) if name == 'bx' else rng.randint(1, 5)] +
                        ([880000000 + t] if spec['ts'] else []))
    rng.shuffle(rows)
    return rows


def text(name, rows):
    spec = SPEC[name]
    lines = []
    if spec['header']:
        lines.append('"User-ID";"ISBN";"Book-Rating"' if name == 'bx' else 'userId,movieId,rating,timestamp')
    for r in rows:
        lines.append(f'{r[0]};"{r[1]}";{r[2]}' if name == 'bx' else spec['sep'].join(map(str, r)))
    return ''.join(x + '\n' for x in lines).encode('latin1' if name == 'bx' else 'utf8')


def payload(plan, name):
    """Bytes served, and {file: records}."""
    spec, rows = SPEC[name], rows_of(plan, name)
    files = {spec['full']: rows}
    if 'train' in spec:
        files[spec['train']] = [r for j, r in enumerate(rows) if j % 4]
        files[spec['test']] = [r for j, r in enumerate(rows) if j % 4 == 0]
    if spec['folder'] is None:
        return text(name, rows), files
    buf = io.BytesIO()
    with zipfile.ZipFile(buf, 'w', zipfile.ZIP_DEFLATED) as z:
        for n, rs in list(files.items()) + [('README', None)]:
            info = zipfile.ZipInfo(f'{spec["folder"]}/{n}', (2020, 1, 1, 0, 0, 0))
            z.writestr(info, b'read me\n' if rs is None else text(name, rs))
    return buf.getvalue(), files


def bag(rows):
    return sorted(repr([key(norm(x)) for x in r]) for r in rows)


class S08(Prop):
    ID = 'S08'
    RUNS = {'quick': 1500, 'thorough': 30000}
    WALL = {'quick': 150.0, 'thorough': 1800.0}
    RULE = ('one evaluation = one sequence of simulated processes requesting integrated datasets under network, disk and '
            'crash faults; a distinct case is a distinct (dataset, requests, faults, outcomes) sequence')
    REAL = ['DRecPy.Dataset integrated datasets', 'leave_k_out and its thread pool (simulated threads)', 'requests '
            '(above its transport adapter)', 'zipfile', 'file system', 'SQLite', 'pandas']
    STUB = ['network transport', 'crash points and disk errors (disk seam)', 'scheduler and clock']
    ASSUMPTIONS = ['an archive whose bytes changed in transit is only noticed through its own checksums',
                   'a plain-text download that ends early without an announced length cannot be noticed']

    def gen(self, rng, tier, i):
        name = rng.choice(sorted(SPEC))
        spec = SPEC[name]
        procs = []
        for _ in range(rng.choice([1, 2, 3])):
            calls = [[rng.choice(['full', 'train', 'test']), rng.choice(['mem', 'db'])]
                     for _ in range(rng.choice([1, 2, 3]))]
            x = rng.random()
            p = {'calls': calls, 'fault': None}
            if x < 0.4:
                kinds = ['refuse', 'timeout', '404', '503', 'drop', 'drop0', 'cut'] + \
                        (['cut_silent', 'flip'] if spec['folder'] else [])
                p['fault'] = {'kind': 'net', 'what': rng.choice(kinds), 'when': rng.choice(['1', '1', 'all'])}
            elif x < 0.7:
                p['fault'] = {'kind': 'crash', 'frac': rng.random(), 'mode': rng.choice([0, 1, 2])}
            elif x < 0.85:
                p['fault'] = {'kind': 'disk', 'frac': rng.random(), 'errno': rng.choice([errno.ENOSPC, errno.EIO]),
                              'sticky': rng.choice([0, 2])}
            procs.append(p)
        users = [rng.choice([1, 3, 9, 10, 11, 12, 15]) for _ in range(rng.randint(1, 5))]
        return {'name': name, 'users': users, 'data_seed': rng.getrandbits(20), 'procs': procs,
                'racers': rng.choice([0, 0, 0, 2, 3]), 'racer_fault': rng.choice([None, None, 'drop', '503']),
                'sched': gen_sched(rng)}

    def execute(self, ctx, plan):
        net.install()
        name = plan['name']
        data, files = payload(plan, name)
        from DRecPy.Dataset import available_datasets, integrated_datasets as I
        if name not in available_datasets():
            ctx.probe('dataset_not_available')
            return
        net.SERVED.clear()
        net.SERVED[I.DATASETS[name].url] = data
        self.files, self.spec, self.name = files, SPEC[name], name
        self.seen = {}
        hist = []
        if plan['racers']:
            self.race(ctx, plan)
        for j, p in enumerate(plan['procs']):
            n = None
            f = p['fault'] or {}
            if f.get('kind') in ('crash', 'disk'):
                n = self.count_ops(ctx, p)
                if not n:
                    continue
            st, out = ctx.fork(lambda: self.process(ctx, p, n, j))
            for what, b in (out or {}).get('splits', {}).items():
                self.same(what, b)
            hist.append((p['calls'], str(f), st, (out or {}).get('outcomes')))
        # faults have stopped: everything must be served now, from one download at most
        st, out = ctx.fork(lambda: self.process(ctx, {'calls': [['full', 'mem'], ['train', 'db'], ['test', 'mem'],
                                                                ['test', 'db'], ['train', 'mem'], ['full', 'db']],
                                                      'fault': None}, None, 'last'))
        for what, b in out['splits'].items():
            self.same(what, b)
        if out['requests'] > 1:
            raise Violation('repeated-download', f'{name}: {out["requests"]} downloads in one process without faults')
        self.complementary(name)
        ctx.state((name, hist))

    def same(self, what, b):
        if self.seen.setdefault(what, b) != b:
            raise Violation('split-changed', f'{self.name}: the {what} dataset is not the one an earlier call returned '
                                             f'({len(b)} vs {len(self.seen[what])} records)')

    def complementary(self, name):
        if 'train' in self.spec:
            return
        train, test = self.seen['train'], self.seen['test']
        per = {}
        for r in self.files[self.spec['full']]:
            per.setdefault(r[0], []).append(r)
        want = bag([r for u, rs in per.items() if len(rs) >= MIN for r in rs])
        if sorted(train + test) != want:
            raise Violation('split-records', f'{name}: train and test together do not hold each record of the users with '
                                             f'enough interactions exactly once ({len(train)} + {len(test)}, '
                                             f'expected {len(want)})')
        got = {}
        for b in test:
            u = eval(b)[0]
            got[u] = got.get(u, 0) + 1
        for u, rs in per.items():
            n = K if len(rs) > K else 0
            if len(rs) >= MIN and got.get(float(u), 0) != n:
                raise Violation('split-records', f'{name}: user {u} has {got.get(float(u), 0)} test records, expected {n}')

    def count_ops(self, ctx, p):
        """Disk operations of this process without a fault (in a throw-away data folder with the same content)."""
        import shutil
        copy = ctx.path('probe')
        shutil.copytree(ctx.path('data'), copy)

        def go():
            os.environ['DATA_FOLDER'] = copy
            ctx.shim.arm(copy)
            self.process(ctx, dict(p, fault=None), None, 'probe')
            return ctx.shim.count()
        try:
            return ctx.fork(go)[1]
        finally:
            shutil.rmtree(copy, ignore_errors=True)

    def process(self, ctx, p, n, j):
        f = p['fault'] or {}
        kind = f.get('kind')
        net.arm({f['when']: f['what']} if kind == 'net' else {})
        if kind == 'crash':
            ctx.shim.arm(ctx.path('data'), crash_at=1 + int(f['frac'] * n), crash_mode=f['mode'])
        elif kind == 'disk':
            ctx.shim.arm(ctx.path('data'), fail_at=1 + int(f['frac'] * n), errno=f['errno'], sticky=f['sticky'])
        outcomes, splits = [], {}
        for what, backend in p['calls']:
            try:
                got = self.request(what, backend)
            except Violation:
                raise
            except Exception as e:
                fired = sum(net.NET['fired'].values()) or (kind == 'disk' and ctx.shim.fired())
                if not fired:
                    raise Violation('exception', f'{self.name}: get_{what}_dataset ({backend}) in process {j} raised '
                                                 f'{short(e)}')
                outcomes.append('raised')
                ctx.probe('requests_failed')
                continue
            outcomes.append('ok')
            ctx.probe('requests_served')
            self.check(what, backend, got, j, splits)
        for k, v in net.NET['fired'].items():
            ctx.fault('net_' + k, v)
        if kind == 'disk':
            ctx.fault('disk_' + errno.errorcode[f['errno']] + ('_full' if f['sticky'] else ''), ctx.shim.fired())
        return {'outcomes': outcomes, 'splits': splits, 'requests': net.NET['requests']}

    def check(self, what, backend, got, j, splits):
        b = bag(got)
        file = self.spec.get(what)
        if file:
            want = bag(self.files[file])
            if b != want:
                raise Violation('wrong-records', f'{self.name}: get_{what}_dataset ({backend}) in process {j} returned '
                                                 f'{len(b)} records, the published file has {len(want)} '
                                                 f'(e.g. {[x for x in b if x not in want][:1]})')
        else:
            if splits.setdefault(what, b) != b:
                raise Violation('split-changed', f'{self.name}: two calls for the {what} dataset in process {j} differ')

    def request(self, what, backend):
        from DRecPy.Dataset import get_full_dataset, get_test_dataset, get_train_dataset
        fn = {'full': get_full_dataset, 'train': get_train_dataset, 'test': get_test_dataset}[what]
        cols = ['user', 'item', 'interaction'] + (['timestamp'] if self.spec['ts'] else [])
        ds = fn(self.name, force_out_of_memory=(backend == 'db'), verbose=False)
        out = ds.values_list(cols, to_list=True)
        if len(ds) != len(out):
            raise Violation('wrong-records', f'{self.name}: length {len(ds)}, {len(out)} records')
        if hasattr(ds, 'close'):
            ds.close()
        return out

    def race(self, ctx, plan):
        """Several threads of one process request the dataset for the first time at once."""
        def go():
            net.arm({'1': plan['racer_fault']} if plan['racer_fault'] else {})
            res = []

            def one(i):
                try:
                    res.append(('ok', i, self.request('full', 'mem' if i % 2 else 'db')))
                except Violation as v:
                    res.append(('violation', i, [v.kind, v.msg]))
                except Exception as e:
                    res.append(('raised', i, short(e)))
            ts = [threading.Thread(target=one, args=(i,)) for i in range(plan['racers'])]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
            ctx.probe('racing_requests', len(res))
            fired = sum(net.NET['fired'].values())
            for k, v in net.NET['fired'].items():
                ctx.fault('net_' + k, v)
            if len(res) != plan['racers']:
                raise Violation('exception', f'{self.name}: a thread requesting the dataset died')
            bad = [r for r in res if r[0] == 'raised']
            if len(bad) > fired:
                raise Violation('exception', f'{self.name}: concurrent request raised {bad[0][2]}')
            for st, i, got in res:
                if st == 'violation':
                    raise Violation(*got)
                if st == 'ok':
                    self.check('full', 'racing thread', got, f'with {plan["racers"]} racing threads', {})
        ctx.fork(go)

    def shrink(self, plan):
        if plan['racers']:
            yield dict(plan, racers=0)
        for j in range(len(plan['procs'])):
            yield dict(plan, procs=plan['procs'][:j] + plan['procs'][j + 1:])
        for j, p in enumerate(plan['procs']):
            for c in range(len(p['calls'])):
                if len(p['calls']) > 1:
                    q = dict(p, calls=p['calls'][:c] + p['calls'][c + 1:])
                    yield dict(plan, procs=plan['procs'][:j] + [q] + plan['procs'][j + 1:])
            if p['fault']:
                yield dict(plan, procs=plan['procs'][:j] + [dict(p, fault=None)] + plan['procs'][j + 1:])
        if len(plan['users']) > 1:
            for j in range(len(plan['users'])):
                yield dict(plan, users=plan['users'][:j] + plan['users'][j + 1:])


PROP = S08()
