import csv
import errno
import gc
import io
import os
import random
import re
import shutil
import sqlite3
import threading

from .. import seams
from ..base import Prop, gen_sched
from ..dsmodel import diff, norm, norm_row, read_all
from ..harness import Violation
from ..kernel import SimAbort
from ..runner import gen_knobs, set_knobs, short

COLS = ['user', 'item', 'interaction', 'timestamp', 'tag']
WORDS = ['u1', 'u22', 'a b', "o'neil", 'x.y', 'id', 'Zoé', 'naïve', 'a,b', 'p;q', 'c\td', 'say "hi"', 'user', '9lives', 'l1\nl2',
         '7', '007', '1e3', 'True', 'x' * 40, '#1', '%s', '?', '(a)', '-', 'a:b', '日本']
BLANKS = ['u1 ', ' u1', ' a  b ']       # pandas cuts blanks at the start and end of some lines
PRIVATE = re.compile(r'^tmp_files(_\d+)?\.txt')


def gen_source(rng):
    """A file of records: what its fields mean, and how they are written down."""
    n = rng.choice([0, 1, 2, rng.randint(2, 12), rng.randint(10, 40), 200 if rng.random() < 0.2 else 5])
    kinds = {'user': rng.choice(['int', 'int', 'str', 'str', 'float']), 'item': rng.choice(['int', 'int', 'str', 'str', 'float']),
             'interaction': rng.choice(['int', 'float']), 'timestamp': rng.choice(['int', 'float']), 'tag': 'str', None: 'str'}
    cols = COLS[:3] + [c for c in COLS[3:] if rng.random() < 0.4]
    if rng.random() < 0.5:
        rng.shuffle(cols)
    for _ in range(rng.choice([0, 0, 0, 1, 2])):                 # fields that are not wanted
        cols.insert(rng.randint(0, len(cols)), None)
    delim = rng.choice([',', ',', ';', '\t', '|', '::'])
    enc = rng.choice([None, None, 'utf8', 'latin1', 'cp1252', 'utf-16'])
    words = [w for w in WORDS if enc in (None, 'utf8', 'utf-16') or w != '日本']
    blanks = rng.random() < 0.25
    if blanks:
        words += BLANKS
    if delim == '::':
        words = [w for w in words if '\n' not in w and ':' not in w and not w.endswith('"')]
    pools = {}
    for c in set(cols):
        k = kinds[c]
        if k == 'str':
            first = rng.choice(['u1', 'a b', 'Zoé', 'a,b', 'x.y'])
            pools[c] = [first] + rng.sample(words, rng.randint(1, 6))
        elif k == 'int':
            pools[c] = rng.sample([0, 1, 2, 3, 5, 8, 40, 978300760, -4], rng.randint(1, 6))
        else:
            pools[c] = rng.sample([0.5, 1.5, 2.25, 3.0, 4.75, -1.5, 1000.5], rng.randint(1, 5))
    rows = []
    for j in range(n):
        rows.append([pools[c][0] if j == 0 else rng.choice(pools[c]) for c in cols])
    extra = rng.random() < 0.1
    return {'kind': 'csv', 'blanks': blanks, 'cols': cols, 'rows': rows, 'delim': delim, 'enc': enc, 'header': rng.random() < 0.4,
            'eol': rng.choice(['\n', '\n', '\r\n']), 'last_eol': rng.random() < 0.7, 'quote': rng.choice(['minimal', 'minimal', 'all']),
            'blank': sorted({rng.randint(0, n) for _ in range(rng.choice([0, 0, 0, 1, 3]))}), 'trailing': extra,
            'float_style': rng.choice(['repr', 'exp', 'pad'])}


def gen_df(rng):
    s = gen_source(rng)
    s.update(kind='df', index=rng.choice(['range', 'range', 'shuffled', 'repeated', 'offset']),
             labels=[rng.choice([None, 'name_' + c, c]) for c in COLS[:3]])
    s['cols'] = [c if c is not None else f'x{j}' for j, c in enumerate(s['cols'])]
    if any(c.startswith('x') for c in s['cols']):
        s['cols'], s['rows'] = [c for c in s['cols'] if not c.startswith('x')], \
            [[v for c, v in zip(s['cols'], r) if not c.startswith('x')] for r in s['rows']]
    return s


def field(v, s):
    if isinstance(v, float):
        return {'repr': repr(v), 'exp': '%.6e' % v, 'pad': '%.4f' % v}[s['float_style']]
    return str(v)


def text_of(s):
    """The text of a csv file."""
    lines = []

    def line(vals, j):
        if s['trailing']:
            vals = list(vals) + ['extra%d' % j]
        if len(s['delim']) > 1:
            return s['delim'].join(vals)
        out = io.StringIO()
        csv.writer(out, delimiter=s['delim'], lineterminator='',
                   quoting=csv.QUOTE_ALL if s['quote'] == 'all' else csv.QUOTE_MINIMAL).writerow(vals)
        return out.getvalue()

    if s['header']:
        lines.append(line(['h%d' % j for j in range(len(s['cols']))], 0))
    for j, r in enumerate(s['rows']):
        if j in s['blank']:
            lines.append('')
        lines.append(line([field(v, s) for v in r], j))
    if len(s['rows']) in s['blank']:
        lines.append('')
    t = s['eol'].join(lines)
    return t + s['eol'] if lines and s['last_eol'] else t


def expected(s):
    return {j: {c: norm(v) for c, v in zip(s['cols'], r) if c is not None} for j, r in enumerate(s['rows'])}


class S18(Prop):
    ID = 'S18'
    RUNS = {'quick': 3000, 'thorough': 80000}
    WALL = {'quick': 150.0, 'thorough': 1800.0}
    RULE = ('one evaluation = one file, database file or frame (or several at once, in threads) loaded, with or without a '
            'fault; a distinct case is a distinct (source, options, fault, outcome)')
    REAL = ['DRecPy.Dataset (memory and database backends, factory, read_df)', 'pandas', 'csv', 'SQLite', 'file system']
    STUB = ['read and write failures, short reads (disk seam)', 'failing statements (SQL seam)', 'thread scheduling']
    ASSUMPTIONS = ['the fields of a file follow the type of the first record, no field is a spelling of a missing value (NA)',
                   'fields that start or end with a blank are only read from text into db datasets (pandas cuts some of them)',
                   'a file is not changed while it is loaded']

    def gen(self, rng, tier, i):
        many = rng.random() < 0.25
        loads = []
        for _ in range(rng.choice([2, 3]) if many else 1):
            x = rng.random()
            s = gen_df(rng) if x < 0.12 else gen_source(rng)
            if 0.12 <= x < 0.24:
                s['kind'] = 'sqlite'
                s['cols'], s['rows'] = ([c for c in s['cols'] if c is not None],
                                        [[v for c, v in zip(s['cols'], r) if c is not None] for r in s['rows']])
                s['table'] = rng.choice([None, None, 'mine'])
                s['rid0'] = rng.choice([0, 0, 7])
            s['backend'] = 'mem' if s['kind'] == 'df' else 'db' if s['kind'] == 'sqlite' else rng.choice(['mem', 'db', 'db']) \
                if not s['blanks'] else 'db'
            s['chunk'] = rng.choice([None, 1, 2, 3, 7, 40])
            s['verbose'] = rng.random() < 0.15
            s['damage'] = None
            if s['kind'] == 'csv' and s['rows'] and rng.random() < 0.12:
                s['damage'] = [rng.choice(['bytes', 'value', 'missing', 'columns']), rng.randrange(len(s['rows']))]
                if s['damage'][0] == 'value':
                    s['backend'] = 'db'
            loads.append(s)
        plan = {'loads': loads, 'threads': many, 'knobs': gen_knobs(rng), 'folder': rng.random() < (0.6 if many else 0.9), 'fault': None}
        if many:
            plan['sched'] = rng.choice([gen_sched(rng), {'rate': rng.choice([0.1, 0.3])}])
        x = rng.random()
        if x < 0.2:
            plan['fault'] = {'kind': 'read', 'load': rng.randrange(len(loads)), 'errno': rng.choice([errno.EIO, errno.EACCES]),
                             'frac': rng.random(), 'sticky': rng.choice([0, 1])}
        elif x < 0.35:
            plan['fault'] = {'kind': 'short', 'load': rng.randrange(len(loads)), 'bytes': rng.choice([1, 7, 100])}
        elif x < 0.5:
            plan['fault'] = {'kind': 'sql', 'n': rng.choice([1, 2, 3, 4, 6, 8, 10, 12, 15, 20]),
                             'msg': rng.choice(['disk I/O error', 'database or disk is full', 'out of memory'])}
        elif x < 0.65:
            plan['fault'] = {'kind': 'disk', 'n': rng.choice([1, 2, 3, 4, 5, 7, 9, 12, 16]),
                             'errno': rng.choice([errno.ENOSPC, errno.EIO]), 'sticky': rng.choice([0, 0, 2])}
        elif x < 0.7:
            plan['fault'] = {'kind': 'mem', 'which': rng.choice([[1], 'all'])}
        return plan

    # ------------------------------------------------------------------------------------------------ sources
    def prepare(self, ctx, j, s):
        d = ctx.path(f'src{j}')
        os.makedirs(d)
        if s['kind'] == 'df':
            return None
        if s['kind'] == 'sqlite':
            path = os.path.join(d, 'data.sqlite')
            kinds = {c: 'TEXT' for c in s['cols']}
            for c in s['cols']:
                v = next((r[s['cols'].index(c)] for r in s['rows']), 'x')
                kinds[c] = {int: 'INTEGER', float: 'REAL'}.get(type(v), 'TEXT')
            con = sqlite3.connect(path)
            t = s['table'] or 'interactions'
            con.execute(f'CREATE TABLE {t} (rid INTEGER PRIMARY KEY, uid INTEGER, iid INTEGER, '
                        + ', '.join(f'{c} {kinds[c]}' for c in s['cols']) + ')')
            con.executemany(f'INSERT INTO {t} (rid, {", ".join(s["cols"])}) VALUES ({", ".join("?" * (len(s["cols"]) + 1))})',
                            [[k + s['rid0']] + r for k, r in enumerate(s['rows'])])
            con.commit()
            con.close()
            return path
        path = os.path.join(d, 'data.csv')
        raw = text_of(s).encode(s['enc'] or 'utf8')
        kind = s['damage'] and s['damage'][0]
        if kind == 'missing':
            return path
        if kind == 'value':
            r = dict(s, rows=[list(x) for x in s['rows']])
            r['rows'][s['damage'][1]][s['cols'].index('interaction')] = 'lots'
            raw = text_of(r).encode(s['enc'] or 'utf8')
        if kind == 'bytes' and s['enc'] in (None, 'utf8'):
            r = dict(s, rows=[list(x) for x in s['rows']])
            r['rows'][s['damage'][1]][s['cols'].index('user')] = '\ue000'
            raw = text_of(r).encode('utf8').replace('\ue000'.encode('utf8'), b'ab\xff\xfe')
        with open(path, 'wb') as f:
            f.write(raw)
        return path

    def frame(self, s):
        import pandas as pd
        cols = list(s['cols'])
        labels = dict(zip(COLS[:3], s['labels']))
        df = pd.DataFrame({labels.get(c) or c: [r[k] for r in s['rows']] for k, c in enumerate(cols)})
        n = len(s['rows'])
        if s['index'] == 'shuffled':
            df.index = list(range(n))[::-1]
        elif s['index'] == 'repeated':
            df.index = [k // 2 for k in range(n)]
        elif s['index'] == 'offset':
            df.index = [k + 10 for k in range(n)]
        return df, {f'{c}_label': ''.join(list(l)) for c, l in labels.items() if l}

    def load(self, ctx, plan, s, path):
        from DRecPy.Dataset import InteractionDataset
        if s['kind'] == 'df':
            df, labels = self.frame(s)
            ds = InteractionDataset.read_df(df, verbose=s['verbose'], **labels)
            if not df.equals(self.frame(s)[0]):
                raise Violation('source-changed', 'loading a frame changed it')
            return ds
        kw = {'verbose': s['verbose']}
        if s['chunk']:
            kw['chunksize'] = s['chunk']
        if s['kind'] == 'sqlite':
            if s['table']:
                kw['active_table'] = s['table']
            return InteractionDataset(path, **kw)
        if s['enc']:
            kw['encoding'] = s['enc']
        cols = list(s['cols'])
        if s['damage'] and s['damage'][0] == 'columns':
            cols.remove('item')
        if s['backend'] == 'mem' and s['chunk']:
            del kw['chunksize']
        given = list(cols)
        try:
            return InteractionDataset(path, columns=cols, delimiter=s['delim'], has_header=s['header'],
                                      in_memory=s['backend'] == 'mem', **kw)
        finally:
            if cols != given:
                raise Violation('source-changed', f'loading changed the list of columns: {given} to {cols}')

    # ------------------------------------------------------------------------------------------------ checks
    def check(self, ctx, plan, s, ds, what):
        want = expected(s)
        if self.shapeless(s):
            return
        if s['kind'] == 'sqlite':
            want = {r + s['rid0']: row for r, row in want.items()}
        cols = [c for c in s['cols'] if c is not None]
        if sorted(ds.columns) != sorted(cols + ['rid']):
            raise Violation('wrong-records', f'{what}: columns {ds.columns}, expected {cols + ["rid"]}')
        if len(ds) != len(want):
            raise Violation('wrong-records', f'{what}: {len(ds)} records, expected {len(want)}')
        try:
            got = read_all(ds)
        except AssertionError as e:
            raise Violation('wrong-records', f'{what}: {e}')
        if s['kind'] == 'df':       # the identifiers of the records of a frame are not specified
            got, want = self.by_order(got), want
        if got != want:
            raise Violation('wrong-records', f'{what}: {diff(got, want)}')
        if not want:
            return
        sub = ds.select('interaction > 2')
        n = sum(1 for r in want.values() if r['interaction'] > 2)
        if len(sub) != n:
            raise Violation('wrong-records', f'{what}: {len(sub)} records with interaction > 2, expected {n}')
        x = sorted(got)[len(got) // 2]
        rid = sorted(r['rid'] for r in map(norm_row, ds.values_list(columns=['rid', 'user'])))[len(got) // 2]
        if len(ds.drop([rid])) != len(want) - 1 or len(ds.drop([rid], keep=True)) != 1:
            raise Violation('wrong-records', f'{what}: dropping record {rid} left {len(ds.drop([rid]))} of {len(want)} records')
        ids = ds.copy()
        ids.assign_internal_ids()
        for raw, own, to, back in (('user', 'uid', ids.user_to_uid, ids.uid_to_user), ('item', 'iid', ids.item_to_iid,
                                                                                        ids.iid_to_item)):
            seen = {}
            for v in {r[raw] for r in want.values()}:
                k = norm(to(v))
                if k is None or k in seen or norm(back(k)) != v:
                    raise Violation('wrong-ids', f'{what}: {raw} {v!r} has internal id {k}, which belongs to '
                                                 f'{seen.get(k, back(k) if k is not None else None)!r}')
                seen[k] = v
            if sorted(seen) != list(range(len(seen))):
                raise Violation('wrong-ids', f'{what}: the internal ids of the {raw}s are {sorted(seen)}')
            for rec in ids.values_list(columns=[raw, own]):
                if seen[norm(rec[own])] != norm(rec[raw]):
                    raise Violation('wrong-ids', f'{what}: a record of {raw} {norm(rec[raw])!r} has {own} {rec[own]}')
        ctx.probe('checked_loads')
        return x

    def shapeless(self, s):
        return not s['rows'] and None in s['cols'] and s['delim'] == '::' and s['backend'] == 'mem'

    def by_order(self, got):
        return {j: row for j, row in enumerate(got.values())}

    def folder(self, ctx):
        return sorted(f for f in os.listdir(ctx.path('data')) if not PRIVATE.match(f)) if os.path.isdir(ctx.path('data')) else []

    def execute(self, ctx, plan):
        set_knobs(plan['knobs'])
        loads = plan['loads']
        paths = [self.prepare(ctx, j, s) for j, s in enumerate(loads)]
        before = [open(p, 'rb').read() if p and os.path.exists(p) else None for p in paths]
        if not plan['folder']:
            shutil.rmtree(ctx.path('data'))
        f = plan['fault'] or {}
        kind = f.get('kind')
        if kind == 'read':          # where reads happen is only known once the file was loaded
            ctx.shim.arm_read(ctx.path(f'src{f["load"]}') + '/')
            n, _ = ctx.fork(lambda: self.quietly(ctx, plan, loads[f['load']], paths[f['load']]))[1]
            f = dict(f, n=1 + int(f['frac'] * max(n, 1)))
            ctx.shim.arm_read(ctx.path(f'src{f["load"]}') + '/', fail_at=f['n'], errno=f['errno'], sticky=f['sticky'])
        elif kind == 'short':
            ctx.shim.arm_read(ctx.path(f'src{f["load"]}') + '/', short=f['bytes'])
        elif kind == 'sql':
            seams.arm_sql({f['n']: f['msg']})
        elif kind == 'disk':
            ctx.shim.arm(ctx.path('data'), fail_at=f['n'], errno=f['errno'], sticky=f['sticky'])
        elif kind == 'mem':
            seams.arm_mem({'read_csv': f['which']})
        out = [None] * len(loads)

        def job(j):
            try:
                out[j] = ('ok', self.load(ctx, plan, loads[j], paths[j]))
            except Violation as v:
                out[j] = ('violation', v)
            except SimAbort:
                raise
            except Exception as e:
                out[j] = ('raised', short(e))

        if plan['threads']:
            ts = [threading.Thread(target=job, args=(j,)) for j in range(len(loads))]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
        else:
            job(0)
        fired = self.disarm(ctx, f, kind)
        gc.collect()
        for j, s in enumerate(loads):
            if out[j][0] == 'violation':
                raise out[j][1]
        ok = [o[0] == 'ok' for o in out]
        for j, s in enumerate(loads):
            what = self.what(s, plan)
            if paths[j] and before[j] != (open(paths[j], 'rb').read() if os.path.exists(paths[j]) else None):
                raise Violation('source-changed', f'{what} changed the file')
            if ok[j]:
                must = s['damage'] and s['damage'][0]
                if must in ('missing', 'columns', 'value') and not (must == 'value' and s['backend'] == 'mem'):
                    raise Violation('no-error', f'{what} did not raise')
                if must == 'bytes' and s['enc'] in (None, 'utf8') and not (s['delim'] == '::' and s['backend'] == 'mem'):
                    raise Violation('no-error', f'{what} did not raise')
                if must == 'bytes' and s['enc'] in (None, 'utf8'):
                    continue        # (the reader used for long delimiters substitutes the bytes)
                self.safely(lambda: self.check(ctx, plan, s, out[j][1], what), what)
            else:
                mine = fired and (kind not in ('read', 'short') or f['load'] == j) and (
                    s['backend'] == 'db' or kind in ('read', 'mem'))
                mine = mine and kind not in ('short', 'mem')
                # (memory runs short: the load falls back on the database backend)
                # an empty file with fields that are not wanted, split at a string: nothing to tell the fields from
                mine = mine or self.shapeless(s)
                if not mine and not s['damage']:
                    raise Violation('exception', f'{what} raised {out[j][1]}')
                ctx.probe('failed_loads')
        left = self.folder(ctx)
        db = sum(1 for j, s in enumerate(loads) if ok[j] and not out[j][1].in_memory)
        if db == 0 and left and not (kind == 'disk' and (f['sticky'] or any(s['damage'] for s in loads))):
            raise Violation('left-over', f'failed loads left {left} behind ({self.what(loads[0], plan)})')
        held = self.held(ctx)
        if db == 0 and held:
            raise Violation('left-over', f'failed loads left {held} open ({self.what(loads[0], plan)})')
        for j, s in enumerate(loads):           # again, without a fault
            if not ok[j] and not s['damage'] and s['rows']:
                what = self.what(s, plan) + ', again after a failure,'
                self.safely(lambda: self.check(ctx, plan, s, self.load(ctx, plan, s, paths[j]), what), what)
        ctx.state([(s['kind'], s['backend'], s['cols'], len(s['rows']), s['delim'], s['header'], s['chunk'], bool(s['blank']),
                    s['enc'], s['damage']) for s in loads] + [plan['fault'], fired, ok])
        ctx.log(ok, fired, [o[1] for o in out if o[0] == 'raised' and kind != 'read'])
        del out
        gc.collect()
        if self.folder(ctx) and not (kind == 'disk' and (f['sticky'] or any(s['damage'] for s in loads))):
            raise Violation('left-over', f'the loaded datasets are gone, but their files {self.folder(ctx)} are not')

    def quietly(self, ctx, plan, s, path):
        try:
            self.load(ctx, plan, s, path)
        except Exception:
            pass
        return ctx.shim.reads()[0], 0

    def safely(self, fn, what):
        try:
            fn()
        except (Violation, SimAbort):
            raise
        except Exception as e:
            import traceback
            raise Violation('exception', f'{what}: using the loaded dataset raised {short(e)} '
                                         f'{traceback.format_exc()[-600:]}')

    def disarm(self, ctx, f, kind):
        fired = 0
        if kind in ('read', 'short'):
            n, failed, shorted = ctx.shim.reads()
            ctx.shim.arm_read()
            ctx.fault({'read': 'read_' + errno.errorcode[f['errno']] if kind == 'read' else '', 'short': 'short_read'}[kind],
                      failed or shorted)
            fired = failed or shorted
        elif kind == 'sql':
            seams.arm_sql()
            fired = seams.STATS.get('fault_sql', 0)
        elif kind == 'disk':
            ctx.shim.disarm()
            fired = ctx.shim.fired()
            ctx.fault('disk_' + errno.errorcode[f['errno']] + ('', '', '_persistent')[f['sticky']], fired)
        elif kind == 'mem':
            seams.arm_mem({})
            fired = seams.STATS.get('fault_mem_read_csv', 0)
        return fired

    def held(self, ctx):
        """Files of the data folder that the process has open."""
        out = []
        for fd in os.listdir('/proc/self/fd'):
            try:
                p = os.readlink('/proc/self/fd/' + fd)
            except OSError:
                continue
            if p.startswith(ctx.path('data') + '/'):
                out.append(os.path.basename(p))
        return sorted(out)

    def what(self, s, plan):
        return (f'loading {len(s["rows"])} records of a {s["kind"]} source into a {s["backend"]} dataset '
                f'(columns {s["cols"]}, delimiter {s["delim"]!r}, header {s["header"]}, damage {s["damage"]}, '
                f'fault {plan["fault"]})')

    def shrink(self, plan):
        if len(plan['loads']) > 1:
            for j in range(len(plan['loads'])):
                loads = plan['loads'][:j] + plan['loads'][j + 1:]
                p = dict(plan, loads=loads, threads=len(loads) > 1)
                if plan['fault'] and 'load' in plan['fault']:
                    if plan['fault']['load'] == j:
                        continue
                    p['fault'] = dict(plan['fault'], load=plan['fault']['load'] - (plan['fault']['load'] > j))
                yield p
        if plan['fault']:
            yield dict(plan, fault=None)
        for j, s in enumerate(plan['loads']):
            def sub(**kw):
                return dict(plan, loads=plan['loads'][:j] + [dict(s, **kw)] + plan['loads'][j + 1:])
            if not s['damage']:
                n = len(s['rows'])
                size = max(1, n // 2)
                while size >= 1 and n:
                    for k in range(1, n, size):      # column types come from the first row, so it stays
                        yield sub(rows=s['rows'][:k] + s['rows'][k + size:], blank=[])
                        yield sub(rows=s['rows'][:k] + s['rows'][k + size:])
                    size //= 2
            for k, v in (('blank', []), ('trailing', False), ('enc', None), ('verbose', False), ('quote', 'minimal'),
                         ('eol', '\n'), ('header', False), ('last_eol', True), ('float_style', 'repr'), ('chunk', None)):
                if s[k] != v:
                    yield sub(**{k: v})


PROP = S18()
