"""Drives real datasets and reference models side by side; used by the dataset properties."""
import gc
import os
import random

from .dsmodel import (FUNCS, Model, diff, gen_conds, gen_table, model_of, norm, norm_row, q, read_all, write_csv)
from .harness import Violation
from .kernel import SimAbort


class OpFailed(Exception):
    """The operation the fault plan hit raised."""


def short(e):
    return f'{type(e).__name__}: {str(e)[:300]}'


class Slot:
    __slots__ = ('ds', 'm', 'backend', 'types', 'fam')

    def __init__(self, ds, m, backend, types, fam):
        self.ds, self.m, self.backend, self.types, self.fam = ds, m, backend, types, fam


KNOB_NAMES = {'opt_rows': '_opt_n_rows_threshold', 'opt_queries': '_opt_n_query_threshold',
              'opt_ratio': '_opt_ratio_threshold', 'opt_direct': '_opt2_n_direct_interactions_threshold',
              'ucache': '_default_user_vec_cache_limit', 'icache': '_default_item_vec_cache_limit'}


def gen_knobs(rng):
    return {'opt_rows': rng.choice([1, 2, 5, 5000]), 'opt_queries': rng.choice([1, 2, 3, 3]),
            'opt_ratio': rng.choice([0.8, 0.95, 1.0]), 'opt_direct': rng.choice([1, 2, 4, 4, 4]),
            'ucache': rng.choice([0, 1, 1000]), 'icache': rng.choice([0, 1, 1000]),
            'chunk': rng.choice([None, 1, 3, 7])}


def set_knobs(knobs):
    """Tuning thresholds of the database backend: legal configuration, never allowed to change results."""
    from DRecPy.Dataset import DatabaseInteractionDataset as D
    for k, attr in KNOB_NAMES.items():
        if k in knobs and hasattr(D, attr):
            setattr(D, attr, knobs[k])


def load(ctx, backend, columns, rows, name, header=False, knobs=None):
    from DRecPy.Dataset import InteractionDataset
    path = ctx.path(f'{name}.csv')
    write_csv(path, columns, rows, header)
    kw = {}
    if knobs and knobs.get('chunk') and backend == 'db':
        kw['chunksize'] = knobs['chunk']
    return InteractionDataset(path, columns=list(columns), has_header=header, in_memory=(backend == 'mem'),
                              verbose=False, **kw)


class Runner:
    def __init__(self, ctx, plan):
        self.ctx, self.plan = ctx, plan
        self.slots = {}
        self.tolerate = None      # (op, slot, error) -> True if the operation may fail here (without any effect)
        self.next_fault = None    # fault plan for the next call into the code under test

    # ---------------------------------------------------------------- helpers
    def call(self, what, fn, *a, **kw):
        if self.next_fault is not None:
            return self.faulted(what, fn, *a, **kw)
        try:
            return fn(*a, **kw)
        except Violation:
            raise
        except Exception as e:
            raise Violation('exception', f'{what} raised {short(e)}')

    def faulted(self, what, fn, *a, **kw):
        """The call of the operation that the fault plan hits: it may fail, and then nothing may have changed."""
        f, self.next_fault = self.next_fault, None
        f.arm()
        err = None
        try:
            out = fn(*a, **kw)
        except (Violation, SimAbort):
            raise
        except BaseException as e:
            err = short(e)          # not the exception itself: its frames would keep cursors alive
        finally:
            f.disarm()
        if err is None:
            self.ctx.probe('fault_survived' if f.fired() else 'fault_not_reached')
            return out
        if not f.fired():
            raise Violation('exception', f'{what} raised {err}')
        self.ctx.probe('fault_raised')
        raise OpFailed(f'{what} raised {err}')

    def may_fail(self, op, s, what, fn, *a):
        if self.next_fault is not None:
            self.faulted(what, fn, *a)
            return True
        try:
            fn(*a)
            return True
        except Violation:
            raise
        except Exception as e:
            if self.tolerate is not None and self.tolerate(op, s, e):
                self.ctx.probe('tolerated_failure')
                self.audit(op['src'], f'after {what} failed')
                return False
            raise Violation('exception', f'{what} raised {short(e)}')

    def expect(self, ok, kind, msg):
        if not ok:
            raise Violation(kind, msg)

    def audit(self, sid, why, full=True):
        s = self.slots[sid]
        tag = f'{s.backend} dataset #{sid} {why}'
        n = self.call(f'len of {tag}', len, s.ds)
        self.expect(n == len(s.m.rows), 'wrong-records', f'{tag}: length {n}, expected {len(s.m.rows)}')
        try:
            real = read_all(s.ds)
        except AssertionError as e:
            raise Violation('wrong-records', f'{tag}: {e}')
        except Exception as e:
            raise Violation('exception', f'reading {tag} raised {short(e)}')
        cols = [c for c in s.m.columns if c != 'rid']
        for r, row in real.items():
            self.expect(set(row) == set(cols), 'wrong-records',
                        f'{tag}: record {r} has columns {sorted(row)}, expected {sorted(cols)}')
        # internal ids are checked by their own rules (a bijection), not by value
        want = {r: {c: v for c, v in row.items() if c not in ('uid', 'iid')} for r, row in s.m.rows.items()}
        got = {r: {c: v for c, v in row.items() if c not in ('uid', 'iid')} for r, row in real.items()}
        self.expect(got == want, 'wrong-records', f'{tag}: {diff(got, want)}')
        if 'uid' in cols or 'iid' in cols:
            self.check_ids(tag, s, real)
        self.ctx.probe('audit')
        self.ctx.log('audit', sid, sorted((r, sorted(v.items(), key=str)) for r, v in got.items()))

    def check_ids(self, tag, s, real):
        for idc, raw in (('uid', 'user'), ('iid', 'item')):
            if idc not in s.m.columns:
                continue
            for r, row in real.items():
                want = s.m.rows[r][idc]
                if want is not None:
                    self.expect(row[idc] == want, 'wrong-ids',
                                f'{tag}: record {r} has {idc} {row[idc]}, expected {want}')

    def learn_ids(self, sid):
        """After assign_internal_ids: check the assignment is a bijection onto 0..n-1 and adopt it in the model."""
        s = self.slots[sid]
        tag = f'{s.backend} dataset #{sid}'
        real = self.call(f'reading {tag} after assigning internal ids', read_all, s.ds)
        self.expect(set(real) == set(s.m.rows), 'wrong-records',
                    f'{tag}: assigning internal ids changed the record set')
        for c in ('uid', 'iid'):
            if c not in s.m.columns:
                s.m.columns.append(c)
            s.types[c] = 'int'
        for idc, raw in (('uid', 'user'), ('iid', 'item')):
            fwd = {}
            for r, row in real.items():
                rawv = s.m.rows[r][raw]
                self.expect(row.get(idc) is not None, 'wrong-ids', f'{tag}: record {r} got no {idc}')
                self.expect(fwd.setdefault(rawv, row[idc]) == row[idc], 'wrong-ids',
                            f'{tag}: {raw} {rawv!r} has two internal ids ({fwd[rawv]} and {row[idc]})')
                s.m.rows[r][idc] = row[idc]
            self.expect(sorted(fwd.values()) == list(range(len(fwd))), 'wrong-ids',
                        f'{tag}: the {idc}s of {len(fwd)} distinct {raw}s are {sorted(fwd.values())}, '
                        f'expected 0..{len(fwd) - 1} once each')
        s.m.ids = True

    # ---------------------------------------------------------------- operations
    def do(self, op):
        kind = op['op']
        sid = op.get('src')
        if sid is not None and sid not in self.slots:
            return False
        getattr(self, 'op_' + kind)(op)
        self.ctx.probe('op_' + kind)
        return True

    def op_load(self, op):
        ds = self.call('load', load, self.ctx, op['backend'], op['columns'], op['rows'], f't{op["dst"]}',
                       op.get('header', False), self.plan.get('knobs'))
        m = model_of(op['columns'], op['rows'])
        self.slots[op['dst']] = Slot(ds, m, op['backend'], dict(op['types']), op['dst'])

    def _derive(self, op, make, change):
        """Common part of select/drop/unique/copy: new instance or in place."""
        s = self.slots[op['src']]
        if op.get('copy', True):
            ds = self.call(f'{op["op"]} on {s.backend} dataset #{op["src"]}', make, s.ds, True)
            m = s.m.copy()
            change(m)
            self.expect(ds is not s.ds, 'wrong-records', f'{op["op"]} with copy returned the same instance')
            self.slots[op['dst']] = Slot(ds, m, s.backend, dict(s.types), s.fam)
        else:
            self.call(f'{op["op"]} (in place) on {s.backend} dataset #{op["src"]}', make, s.ds, False)
            change(s.m)

    def conds_ok(self, s, conds):
        """The conditions fit the columns as they are now (an operation of the plan may have been refused)."""
        return all(c in s.m.columns and isinstance(v, str) == (s.types.get(c, 'num') == 'str') for c, _, v in conds)

    def op_select(self, op):
        s = self.slots[op['src']]
        if not self.conds_ok(s, op['conds']):
            return
        self._derive(op, lambda ds, copy: ds.select(q(op['conds']), copy=copy), lambda m: m.select(op['conds']))

    def op_drop(self, op):
        self._derive(op, lambda ds, copy: ds.drop(list(op['rids']), copy=copy, keep=op['keep']),
                     lambda m: m.drop(op['rids'], op['keep']))

    def op_unique(self, op):
        s = self.slots[op['src']]
        if not all(c in s.m.columns for c in op['cols']):
            return
        arg = list(op['cols'])
        if op.get('as_str') and len(arg) == 1:
            self._derive(op, lambda ds, copy: ds.unique(arg[0], copy=copy), lambda m: m.unique(op['cols']))
        else:
            self._derive(op, lambda ds, copy: ds.unique(arg, copy=copy), lambda m: m.unique(op['cols']))
            self.expect(arg == op['cols'], 'argument-changed', f'unique() changed the caller\'s column list to {arg}')

    def op_copy(self, op):
        op = dict(op, copy=True)
        self._derive(op, lambda ds, copy: ds.copy(), lambda m: None)

    def op_apply(self, op):
        s = self.slots[op['src']]
        col = op['col']
        if col not in s.m.columns or (s.types.get(col) == 'str') != (op['fn'] in ('upper', 'suffix')):
            return
        if len(s.m.rows) == 0:
            try:
                s.ds.apply(col, FUNCS[op['fn']])
            except Exception:
                pass
            return
        if not self.may_fail(op, s, f'apply({col}, {op["fn"]}) on {s.backend} dataset #{op["src"]}', s.ds.apply, col,
                             FUNCS[op['fn']]):
            return
        s.m.apply(col, op['fn'])
        if op['fn'] in ('tostr', 'upper', 'suffix'):
            s.types[col] = 'str'

    def op_ids(self, op):
        s = self.slots[op['src']]
        if 'user' not in s.m.columns or 'item' not in s.m.columns:
            return
        if not self.may_fail(op, s, f'assign_internal_ids on {s.backend} dataset #{op["src"]}',
                             s.ds.assign_internal_ids):
            return
        self.learn_ids(op['src'])

    def op_noids(self, op):
        s = self.slots[op['src']]
        if ('uid' in s.m.columns) != ('iid' in s.m.columns):
            return
        self.call(f'remove_internal_ids on {s.backend} dataset #{op["src"]}', s.ds.remove_internal_ids)
        for c in ('uid', 'iid'):
            if c in s.m.columns:
                s.m.columns.remove(c)
                for row in s.m.rows.values():
                    row.pop(c, None)
        s.m.ids = False

    def op_read(self, op):
        s = self.slots[op['src']]
        m, ds = s.m, s.ds
        tag = f'{s.backend} dataset #{op["src"]}'
        kind = op['kind']
        if kind == 'len':
            self.expect(self.call('len', len, ds) == len(m.rows), 'wrong-records', f'{tag}: len')
        elif kind in ('max', 'min'):
            c = op['col']
            if c not in m.columns:
                return
            got = norm(self.call(f'{kind}({c}) on {tag}', getattr(ds, kind), c))
            vals = m.column(c)
            want = None if not vals else (max(vals) if kind == 'max' else min(vals))
            self.expect(got == want, 'wrong-answer', f'{tag}: {kind}({c}) = {got!r}, expected {want!r}')
        elif kind == 'count_unique':
            cols = op['cols']
            if not all(c in m.columns for c in cols):
                return
            got = self.call(f'count_unique({cols}) on {tag}', ds.count_unique, list(cols) if len(cols) > 1 else cols[0])
            want = len({tuple(r if c == 'rid' else v[c] for c in cols) for r, v in m.rows.items()})
            self.expect(got == want, 'wrong-answer', f'{tag}: count_unique({cols}) = {got}, expected {want}')
        elif kind == 'exists':
            if not self.conds_ok(s, op['conds']):
                return
            got = self.call(f'exists({q(op["conds"])}) on {tag}', ds.exists, q(op['conds']))
            want = len(m.matching(op['conds'])) > 0
            self.expect(bool(got) == want, 'wrong-answer', f'{tag}: exists({q(op["conds"])}) = {got}, expected {want}')
        elif kind == 'select_one':
            if not self.conds_ok(s, op['conds']):
                return
            got = self.call(f'select_one({q(op["conds"])}) on {tag}', ds.select_one, q(op['conds']))
            hits = m.matching(op['conds'])
            if got is None:
                self.expect(not hits, 'wrong-answer', f'{tag}: select_one({q(op["conds"])}) found nothing, '
                                                      f'{len(hits)} records match')
            else:
                got = norm_row(got)
                rid = got.pop('rid')
                self.expect(rid in hits and got == hits[rid], 'wrong-answer',
                            f'{tag}: select_one({q(op["conds"])}) = record {rid} {got}, expected one of {hits}')
        elif kind == 'values':
            cols = op['cols']
            if not all(c in m.columns for c in cols):
                return
            arg = list(cols)
            got = self.call(f'values_list({cols}) on {tag}', ds.values_list, arg, to_list=op['to_list'])
            self.expect(arg == list(cols), 'argument-changed', f'values_list() changed the caller\'s list to {arg}')
            want = [[r if c == 'rid' else v[c] for c in cols] for r, v in m.rows.items()]
            if op['to_list']:
                g = [[norm(x)] if len(cols) == 1 else [norm(y) for y in x] for x in got]
            else:
                g = [[norm(x[c]) for c in cols] for x in got]
                self.expect(all(set(x) == set(cols) for x in got), 'wrong-answer',
                            f'{tag}: values_list({cols}) returned other columns')
            self.expect(sorted(g, key=repr) == sorted(want, key=repr), 'wrong-answer',
                        f'{tag}: values_list({cols}) = {sorted(g, key=repr)[:5]}, expected {sorted(want, key=repr)[:5]}')

    def op_bad(self, op):
        """An invalid request: has to raise, and to leave the instance alone."""
        s = self.slots[op['src']]
        tag = f'{s.backend} dataset #{op["src"]}'
        calls = {
            'select_col': lambda: s.ds.select('nosuch == 1', copy=op.get('copy', True)),
            'select_op': lambda: s.ds.select('rid ~ 1', copy=op.get('copy', True)),
            'apply_ro': lambda: s.ds.apply('user', FUNCS['inc']),
            'apply_col': lambda: s.ds.apply('nosuch', FUNCS['inc']),
            'max_col': lambda: s.ds.max('nosuch'),
            'select_late': lambda: s.ds.select(f'{q(op["conds"])},nosuch == 1', copy=op.get('copy', True)),
            'select_late_op': lambda: s.ds.select(f'{q(op["conds"])},rid ~ 1', copy=op.get('copy', True)),
            'select_late_cut': lambda: s.ds.select(f'{q(op["conds"])},rid', copy=op.get('copy', True)),
            'unique_col': lambda: s.ds.unique([c for c in s.m.columns if c != 'rid'][:1] + ['nosuch'],
                                              copy=op.get('copy', True)),
            'values_col': lambda: s.ds.values_list(['rid', 'nosuch']),
            'count_col': lambda: s.ds.count_unique(['nosuch']),
            'exists_col': lambda: s.ds.exists('nosuch == 1'),
            'one_col': lambda: s.ds.select_one('nosuch == 1'),
        }
        if op.get('conds') and not self.conds_ok(s, op['conds']):
            return
        try:
            calls[op['what']]()
        except Exception:
            self.expect(len(s.ds) == len(s.m.rows), 'wrong-records',
                        f'{tag}: invalid request {op["what"]} raised, but the length is {len(s.ds)}, '
                        f'expected {len(s.m.rows)}')
            return
        raise Violation('no-error', f'{tag}: invalid request {op["what"]} did not raise')

    def op_close(self, op):
        s = self.slots.pop(op['src'])
        if op.get('explicit') and hasattr(s.ds, 'close'):
            self.call(f'close of {s.backend} dataset #{op["src"]}', s.ds.close)
            if op.get('twice'):
                self.call(f'second close of {s.backend} dataset #{op["src"]}', s.ds.close)
            if op.get('after'):
                self.use_closed(s.ds, op['after'])
        del s

    def use_closed(self, ds, what):
        """Requests to a closed dataset: they may fail, but must have no effect."""
        users = {'values': lambda: next(ds.values(), None), 'list': lambda: ds.values_list(), 'len': lambda: len(ds),
                 'select': lambda: ds.select('interaction > 0'), 'copy': lambda: ds.copy(),
                 'drop': lambda: ds.drop([0, 1], copy=False), 'keep': lambda: ds.drop([0, 1], copy=True, keep=True),
                 'apply': lambda: ds.apply('interaction', lambda x: 77.0), 'ids': lambda: ds.assign_internal_ids(),
                 'unique': lambda: ds.unique('user', copy=False), 'save': lambda: ds.save(self.ctx.path('closed.csv')),
                 'count': lambda: ds.count_unique('user'), 'close': lambda: ds.close()}
        for w in what:
            try:
                users[w]()
                self.ctx.probe('closed_request_answered')
            except Exception:
                self.ctx.probe('closed_request_refused')

    def op_vec(self, op):
        """Interaction vectors of present users/items, compared entry by entry with the reference records."""
        s = self.slots[op['src']]
        m, tag = s.m, f'{s.backend} dataset #{op["src"]}'
        own, other, fn = (('uid', 'iid', 'select_user_interaction_vec') if op['kind'] == 'user' else
                          ('iid', 'uid', 'select_item_interaction_vec'))
        if not m.ids:
            try:
                getattr(s.ds, fn)(0)
            except Exception:
                return
            raise Violation('no-error', f'{tag}: {fn}(0) without internal ids did not raise')
        if not all(c in m.columns for c in ('uid', 'iid', 'user', 'item', 'interaction')) or not m.rows:
            return
        if s.types.get('interaction') == 'str':
            return
        ids = sorted({r[own] for r in m.rows.values()})
        x = ids[op['idx'] % len(ids)]
        vec = self.call(f'{fn}({x}) on {tag}', getattr(s.ds, fn), x)
        width = max(r[other] for r in m.rows.values()) + 1
        self.expect(tuple(vec.shape) == (1, width), 'wrong-vector',
                    f'{tag}: {fn}({x}) has shape {tuple(vec.shape)}, expected (1, {width})')
        cells = {}
        for r in m.rows.values():
            if r[own] == x:
                cells.setdefault(r[other], []).append(r['interaction'])
        dense = vec.toarray()[0]
        for j in range(width):
            want = cells.get(j, [0])
            if len(want) > 1:
                continue            # several records of one pair: which value counts is not specified
            self.expect(abs(float(dense[j]) - float(want[0])) < 1e-9, 'wrong-vector',
                        f'{tag}: {fn}({x})[{j}] = {dense[j]}, expected {want[0]}')
        self.ctx.probe('vectors')
        self.ctx.log('vec', op['src'], x, [float(v) for v in dense])

    def op_lookup(self, op):
        """Conversion between raw and internal ids, both ways."""
        s = self.slots[op['src']]
        m, tag = s.m, f'{s.backend} dataset #{op["src"]}'
        raw, own, to, back = (('user', 'uid', 'user_to_uid', 'uid_to_user') if op['kind'] == 'user' else
                              ('item', 'iid', 'item_to_iid', 'iid_to_item'))
        if not m.ids:
            for fn, arg in ((to, 0), (back, 0)):
                try:
                    getattr(s.ds, fn)(arg)
                except Exception:
                    continue
                raise Violation('no-error', f'{tag}: {fn} without internal ids did not raise')
            return
        if not all(c in m.columns for c in ('uid', 'iid', 'user', 'item')) or not m.rows:
            return
        pairs = sorted({(r[own], r[raw]) for r in m.rows.values()}, key=str)
        x, rawv = pairs[op['idx'] % len(pairs)]
        got = norm(self.call(f'{to}({rawv!r}) on {tag}', getattr(s.ds, to), rawv))
        self.expect(got == x, 'wrong-ids', f'{tag}: {to}({rawv!r}) = {got!r}, expected {x}')
        got = norm(self.call(f'{back}({x}) on {tag}', getattr(s.ds, back), x))
        self.expect(got == rawv, 'wrong-ids', f'{tag}: {back}({x}) = {got!r}, expected {rawv!r}')
        unknown = 'zz9zz' if s.types[raw] == 'str' else 987654
        got = self.call(f'{to}({unknown!r}) on {tag}', getattr(s.ds, to), unknown)
        self.expect(got is None, 'wrong-ids', f'{tag}: {to} of an unknown {raw} = {got!r}, expected None')
        got = self.call(f'{back}(987654) on {tag}', getattr(s.ds, back), 987654)
        self.expect(got is None, 'wrong-ids', f'{tag}: {back} of an unknown id = {got!r}, expected None')
        self.ctx.probe('lookups')

    def op_gc(self, op):
        gc.collect()

    def op_reseed(self, op):
        """The application re-seeds the process-wide generator, as reproducible experiments do."""
        random.seed(op['value'])

    def op_audit(self, op):
        self.audit(op['src'], 'in mid-history')


# ------------------------------------------------------------------------------------------------- history generation
class GenSlot:
    def __init__(self, m, types, backend):
        self.m, self.types, self.backend = m, types, backend


def gen_history(rng, n_ops, backends, max_rows=30, ids=True, applies=True, families=None, audit_p=0.3, strings=None,
                start=None, next_id=0, allow_load=True, inplace=True, closes=True, readonly=(),
                extra=(), table=None):
    """A concrete operation list; the model is advanced alongside so that arguments are meaningful."""
    ops, slots = [], dict(start or {})
    nid = [next_id]

    def new_id():
        nid[0] += 1
        return nid[0] - 1

    def do_load():
        cols, rows, types = table(rng) if table else gen_table(rng, max_rows=max_rows, strings=strings)
        d = new_id()
        b = rng.choice(backends)
        ops.append({'op': 'load', 'dst': d, 'backend': b, 'columns': cols, 'rows': rows, 'types': types,
                    'header': rng.random() < 0.3})
        slots[d] = GenSlot(model_of(cols, rows), dict(types), b)

    if allow_load:
        for _ in range(families or rng.choice([1, 1, 2])):
            do_load()
    kinds = ['select'] * 7 + ['drop'] * 3 + ['unique'] * 2 + ['copy'] * 2 + ['read'] * 6 + ['bad'] * 1
    if closes:
        kinds += ['close'] * 2 + ['gc'] * 1 + ['reseed'] * 1
    if applies:
        kinds += ['apply'] * 3
    if ids:
        kinds += ['ids'] * 2 + ['noids'] * 1
    kinds += list(extra)
    while len(ops) < n_ops:
        if not slots:
            if not allow_load:
                break
            do_load()
            continue
        kind = rng.choice(kinds)
        if kind == 'gc':
            ops.append({'op': 'gc'})
            continue
        if kind == 'reseed':
            ops.append({'op': 'reseed', 'value': rng.randint(0, 1)})
            continue
        sid = rng.choice(sorted(slots))
        s = slots[sid]
        m = s.m
        ro = sid in readonly
        copy = True if ro or not inplace else rng.random() < 0.75
        if kind == 'close':
            if len(slots) <= 1 or ro:
                continue
            ops.append({'op': 'close', 'src': sid, 'explicit': rng.random() < 0.4, 'twice': rng.random() < 0.3})
            del slots[sid]
        elif kind in ('select', 'drop', 'unique', 'copy'):
            copy = copy or kind == 'copy'
            op = {'op': kind, 'src': sid, 'copy': copy}
            t = m if not copy else m.copy()
            if kind == 'select':
                op['conds'] = gen_conds(rng, m, s.types)
                if rng.random() < 0.6 and m.rows:      # keep histories from collapsing to empty sets
                    for _ in range(4):
                        if m.matching(op['conds']):
                            break
                        op['conds'] = gen_conds(rng, m, s.types)
                t.select(op['conds'])
            elif kind == 'drop':
                rids = sorted(m.rows)
                share = rng.choice([0.2, 0.4, 0.6, 0.9])
                pick = [r for r in rids if rng.random() < share] + ([999] if rng.random() < 0.1 else [])
                op['rids'], op['keep'] = pick, rng.random() < 0.4
                if op['keep'] and not pick and rids:
                    op['rids'] = rids[:1]
                t.drop(op['rids'], op['keep'])
            elif kind == 'unique':
                pool = [c for c in m.columns if c != 'rid']
                if not pool:
                    continue
                op['cols'] = rng.sample(pool, rng.randint(1, min(2, len(pool))))
                if 'uid' in pool and 'iid' in pool and rng.random() < 0.25:
                    op['cols'] = rng.sample(pool, rng.randint(0, len(pool)))
                    op['cols'] += [c for c in ('iid', 'uid') if c not in op['cols']]
                op['as_str'] = rng.random() < 0.5
                t.unique(op['cols'])
            if copy:
                op['dst'] = new_id()
                slots[op['dst']] = GenSlot(t, dict(s.types), s.backend)
            ops.append(op)
        elif kind == 'apply':
            if ro or not inplace:
                continue
            pool = [c for c in m.columns if c in ('interaction', 'timestamp', 'tag')]
            if not pool:
                continue
            col = rng.choice(pool)
            if s.types.get(col) == 'str':
                fn = rng.choice(['upper', 'suffix'])
            else:
                fn = rng.choice(['inc', 'inc', 'dbl', 'half', 'tofloat', 'toint', 'tostr'])
            ops.append({'op': 'apply', 'src': sid, 'col': col, 'fn': fn})
            if m.rows:
                m.apply(col, fn)
                if fn == 'tostr':
                    s.types[col] = 'str'
        elif kind == 'ids':
            if ro or not inplace or 'user' not in m.columns or 'item' not in m.columns:
                continue
            ops.append({'op': 'ids', 'src': sid})
            for raw, idc in (('user', 'uid'), ('item', 'iid')):
                mp = {}
                for r in sorted(m.rows):
                    m.rows[r][idc] = mp.setdefault(m.rows[r][raw], len(mp))
                if idc not in m.columns:
                    m.columns.append(idc)
                s.types[idc] = 'int'
        elif kind == 'noids':
            if ro or not inplace or ('uid' in m.columns) != ('iid' in m.columns):
                continue
            ops.append({'op': 'noids', 'src': sid})
            for c in ('uid', 'iid'):
                if c in m.columns:
                    m.columns.remove(c)
                    for row in m.rows.values():
                        row.pop(c, None)
        elif kind in ('vec', 'lookup'):
            ops.append({'op': kind, 'src': sid, 'kind': rng.choice(['user', 'item']), 'idx': rng.randrange(64)})
        elif kind == 'bad':
            what = rng.choice(['select_col', 'select_op', 'apply_col', 'max_col'] +
                              (['apply_ro'] if 'user' in m.columns and m.rows else []))
            op = {'op': 'bad', 'src': sid, 'what': what, 'copy': True if ro or not inplace else rng.random() < 0.5}
            if rng.random() < 0.5:
                op['what'] = rng.choice(['select_late', 'select_late', 'select_late_op', 'select_late_cut', 'unique_col',
                                         'values_col', 'count_col', 'exists_col', 'one_col'])
                if 'late' in op['what']:
                    op['conds'] = gen_conds(rng, m, s.types, n_max=1)
            ops.append(op)
        elif kind == 'read':
            k = rng.choice(['len', 'max', 'min', 'count_unique', 'exists', 'select_one', 'values', 'values'])
            op = {'op': 'read', 'src': sid, 'kind': k}
            if k in ('max', 'min'):
                op['col'] = rng.choice(m.columns)
            elif k == 'count_unique':
                op['cols'] = rng.sample(m.columns, rng.randint(1, min(2, len(m.columns))))
                if 'rid' in op['cols'] and s.backend == 'mem':
                    op['cols'] = [c for c in op['cols'] if c != 'rid'] or None
                    if op['cols'] is None:
                        continue
            elif k in ('exists', 'select_one'):
                op['conds'] = gen_conds(rng, m, s.types)
            elif k == 'values':
                op['cols'] = rng.sample(m.columns, rng.randint(1, len(m.columns)))
                op['to_list'] = rng.random() < 0.5
            ops.append(op)
        if rng.random() < audit_p and sid in slots:
            ops.append({'op': 'audit', 'src': rng.choice(sorted(slots))})
    return ops, slots, nid[0]
