"""Executable reference model of an interaction dataset (a dict of rows keyed by record id) and the operation runner that
drives the real implementation and the model side by side."""
import csv
import gc
import json
import math
import operator
import os

OPS = {'==': operator.eq, '!=': operator.ne, '<': operator.lt, '<=': operator.le, '>': operator.gt, '>=': operator.ge}

# transformations for apply(); canonical, so that int/float representation does not leak into the result
FUNCS = {
    'inc': lambda x: x + 1,
    'dbl': lambda x: x * 2,
    'half': lambda x: float(x) / 2,
    'toint': lambda x: int(x),
    'tofloat': lambda x: float(x),
    'tostr': lambda x: 'v%g' % float(x),
    'upper': lambda x: str(x).upper(),
    'suffix': lambda x: str(x) + 'z',
}


class Boom(Exception):
    pass


class BoomStop(StopIteration):
    pass


def norm(v):
    """Normalises a value read from the implementation: numpy scalars, int-valued floats, None/NaN."""
    if v is None:
        return None
    if hasattr(v, 'item'):
        v = v.item()
    if isinstance(v, bool):
        return v
    if isinstance(v, float):
        if math.isnan(v):
            return None
        if v == int(v) and abs(v) < 2 ** 53:
            return int(v)
        return v
    return v


def norm_row(d):
    return {k: norm(v) for k, v in d.items()}


class Model:
    """Reference dataset: columns + rows {rid: {column: value}}."""

    def __init__(self, columns, rows, ids=False):
        self.columns = list(columns)
        self.rows = {r: dict(v) for r, v in rows.items()}
        self.ids = ids

    def copy(self):
        return Model(self.columns, self.rows, self.ids)

    def select(self, conds):
        def ok(rid, row):
            for col, op, val in conds:
                x = rid if col == 'rid' else row[col]
                if not OPS[op](x, val):
                    return False
            return True
        self.rows = {r: v for r, v in self.rows.items() if ok(r, v)}

    def matching(self, conds):
        m = self.copy()
        m.select(conds)
        return m.rows

    def drop(self, rids, keep):
        s = set(rids)
        self.rows = {r: v for r, v in self.rows.items() if (r in s) == keep}

    def unique(self, cols):
        cols = [c for c in cols]
        seen, rows = set(), {}
        for r in sorted(self.rows):
            key = tuple(r if c == 'rid' else self.rows[r][c] for c in cols if c != 'rid' or True)
            if key in seen:
                continue
            seen.add(key)
            rows[r] = {c: self.rows[r][c] for c in cols if c != 'rid'}
        self.rows = rows
        self.columns = [c for c in cols]
        if 'rid' not in self.columns:
            self.columns.append('rid')

    def apply(self, col, fn):
        new = {r: FUNCS[fn](v[col]) for r, v in self.rows.items()}
        for r, x in new.items():
            self.rows[r][col] = norm(x)

    def column(self, col):
        return [r if col == 'rid' else v[col] for r, v in self.rows.items()]

    def snapshot(self):
        return {r: dict(v) for r, v in self.rows.items()}


def write_csv(path, columns, rows, header=False, delimiter=','):
    with open(path, 'w', newline='') as f:
        w = csv.writer(f, delimiter=delimiter, lineterminator='\n')
        if header:
            w.writerow(columns)
        for r in rows:
            w.writerow(r)


def model_of(columns, rows):
    return Model(list(columns) + ['rid'], {i: {c: norm(x) for c, x in zip(columns, r)} for i, r in enumerate(rows)})


# --------------------------------------------------------------------------------------------------- reading the real
def read_all(ds, columns=None):
    """Every record of a dataset, keyed by record id, through the public API."""
    out = {}
    n = 0
    for rec in ds.values_list():
        rec = norm_row(rec)
        n += 1
        rid = rec.pop('rid')
        if rid in out:
            raise AssertionError(f'record id {rid} returned twice')
        out[rid] = rec
    return out


def diff(real, model, limit=3):
    """Human-readable difference between two {rid: row} maps (restricted to the model's columns)."""
    msgs = []
    for r in sorted(set(real) | set(model)):
        a, b = real.get(r), model.get(r)
        if a != b:
            msgs.append(f'record {r}: got {a}, expected {b}')
            if len(msgs) >= limit:
                break
    return '; '.join(msgs)


def q(conds):
    return ', '.join(f'{c} {o} {v!r}' for c, o, v in conds)


# --------------------------------------------------------------------------------------------------- data generation
def gen_table(rng, max_rows=40, dup=True, strings=None, extra=True, min_rows=1, n_users=None, n_items=None,
              contiguous=False, interactions=None):
    """Random table: (columns, rows, types)."""
    n = rng.choice([min_rows, min_rows + 1, rng.randint(min_rows, max(min_rows, max_rows // 4)),
                    rng.randint(min_rows, max_rows), max_rows])
    nu = n_users or rng.randint(1, max(1, min(8, n)))
    ni = n_items or rng.randint(1, max(2, min(10, n)))
    ustr = rng.random() < 0.4 if strings is None else strings
    istr = rng.random() < 0.4 if strings is None else strings

    def names(k, s, base):
        if s:
            pool = [f'{base}{i}' for i in range(k)]
            odd = ['7', '007', 'user', 'item', 'tag', "o'neil", 'rid', 'interaction', 'x.y', '1e3', 'True']
            rng.shuffle(odd)
            # a couple of odd identifiers, never in first place: the database backend types a column by its first value
            for j in range(min(len(pool) - 1, rng.randint(0, 2))):
                pool[j + 1] = odd[j]
            return pool
        if contiguous:
            return list(range(k))
        start = rng.choice([0, 1, 5, 100])
        step = rng.choice([1, 1, 3])
        return [start + i * step for i in range(k)]

    users, items = names(nu, ustr, 'u'), names(ni, istr, 'i')
    fl = rng.random() < 0.4
    vals = interactions or ([0.5, 1.5, 2.0, 2.5, 3.75, 5.0] if fl else [0, 1, 2, 3, 4, 5])
    cols = ['user', 'item', 'interaction']
    types = {'user': 'str' if ustr else 'int', 'item': 'str' if istr else 'int',
             'interaction': 'num', 'rid': 'int'}
    if extra and rng.random() < 0.6:
        cols.append('timestamp')
        types['timestamp'] = 'num'
    if extra and rng.random() < 0.4:
        cols.append('tag')
        types['tag'] = 'str'
    rows, seen = [], set()
    tries = 0
    while len(rows) < n and tries < 20 * n:
        tries += 1
        u, i = rng.choice(users), rng.choice(items)
        if not rows:
            u, i = users[0], items[0]
        if (u, i) in seen and not dup:
            continue
        seen.add((u, i))
        row = [u, i, rng.choice(vals)]
        if 'timestamp' in cols:
            row.append(rng.randint(0, 50))
        if 'tag' in cols:
            row.append(rng.choice(['a', 'b', 'tag', 'user', 'c1']) if rows else 'a')
        rows.append(row)
    return cols, rows, types


def gen_conds(rng, model, types, n_max=2, columns=None):
    conds = []
    cols = [c for c in (columns or model.columns)]
    for _ in range(rng.randint(1, n_max)):
        c = rng.choice(cols)
        t = types.get(c, 'num')
        vals = model.column(c)
        if t == 'str':
            op = rng.choice(['==', '==', '!=', '<', '>='])
            v = rng.choice(vals) if vals and rng.random() < 0.8 else 'zz'
        else:
            op = rng.choice(list(OPS))
            v = rng.choice(vals) if vals and rng.random() < 0.8 else rng.randint(-1, 9)
            if c in ('uid', 'iid', 'rid'):
                v = int(v)
        conds.append([c, op, v])
    return conds
