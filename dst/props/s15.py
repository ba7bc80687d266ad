import errno
import os

from ..base import Prop
from ..dsmodel import gen_table, norm
from ..harness import Violation
from ..models import answers, fit_deep, fits_deep, gen_deep, gen_deep_rows, gen_knn, make_deep, make_knn
from ..runner import gen_knobs, load, set_knobs, short


def gen_model(rng):
    strings = rng.choice([None, False, True])
    cols, rows, types = gen_table(rng, max_rows=rng.choice([6, 12, 20]), min_rows=4, dup=False, strings=strings, extra=False,
                                  interactions=[1, 2, 3, 4, 5])
    return {'columns': cols, 'rows': rows, 'knn': gen_knn(rng), 'verbose': rng.random() < 0.15,
            'view': rng.choice([None, None, 'interaction > 1', 'interaction < 5']), 'used': rng.random() < 0.5,
            'copy': rng.random() < 0.5}


def gen_deep_model(rng):
    cols, rows = gen_deep_rows(rng)
    d = gen_deep(rng)
    d['epochs'] = min(d['epochs'], 2)
    return {'columns': cols, 'rows': rows, 'knn': None, 'deep': d, 'verbose': False, 'view': None, 'used': rng.random() < 0.5,
            'copy': rng.random() < 0.5}


def train(m, p, ds):
    if p.get('deep'):
        fit_deep(m, p['deep'], ds, p['copy'])
    else:
        m.fit(ds, copy_dataset=p['copy'])


class S15(Prop):
    ID = 'S15'
    RUNS = {'quick': 450, 'thorough': 30000}
    WALL = {'quick': 170.0, 'thorough': 1800.0}
    RULE = ('one evaluation = one model saved over an older one (or none) hit by one crash or disk fault, then loaded by a new '
            'process; a distinct case is a distinct (models, fault, outcome)')
    REAL = ['DRecPy.Recommender.RecommenderABC.save/load', 'DRecPy nearest-neighbour and deep recommenders', 'DRecPy.Dataset', 'joblib',
            'pickle', 'pandas', 'file system']
    STUB = ['system call failures, short writes and crash points (disk seam)', 'clock']
    ASSUMPTIONS = ['process crashes: what the process wrote before the crash is on disk (no power loss)',
                   'one writer per target file', 'models over database datasets cannot be pickled: their save is refused']

    def gen(self, rng, tier, i):
        plan = {'old': gen_model(rng) if rng.random() < 0.75 else None, 'new': gen_model(rng), 'knobs': gen_knobs(rng),
                'backend': rng.choice(['mem'] * 6 + ['db']), 'frac': rng.random(), 'refit': rng.random() < 0.3,
                'again': rng.random() < 0.3}
        if rng.random() < 0.2 and plan['old']:
            plan['new'] = dict(plan['old'], knn=plan['new']['knn'])
        plan['reload'], plan['stamp'] = rng.random() < 0.5, rng.random() < 0.5
        x = rng.random()
        if plan['reload'] and x < 0.2:      # models of the same shape: the users swapped their interactions
            nu, ni = rng.choice([3, 5]), rng.choice([3, 4])
            val = [[rng.choice([1, 2, 3, 4, 5]) for _ in range(ni)] for _ in range(nu)]
            plan['new'] = dict(plan['new'], columns=['user', 'item', 'interaction'], view=None, verbose=False,
                               rows=[[u, i, val[u][i]] for u in range(nu) for i in range(ni)])
            plan['old'] = dict(plan['new'], rows=[[u, i, val[(u + 1) % nu][i]] for u in range(nu) for i in range(ni)])
        if rng.random() < 0.12:
            plan['new'] = gen_deep_model(rng)
            plan['old'] = gen_deep_model(rng) if plan['old'] else None
            if plan['old'] and rng.random() < 0.4:      # the same model fitted on other records
                plan['old'] = dict(plan['old'], deep=plan['new']['deep'])
        x = rng.random()
        if x < 0.45:
            plan['fault'] = {'kind': 'crash', 'mode': rng.choice([0, 1, 2])}
        elif x < 0.8:
            plan['fault'] = {'kind': 'fail', 'errno': rng.choice([errno.ENOSPC, errno.EIO, errno.EDQUOT, errno.EACCES]),
                             'sticky': rng.choice([0, 1, 2])}
        elif x < 0.9:
            plan['fault'] = {'kind': 'short', 'bytes': rng.choice([13, 100, 1000])}
        else:
            plan['fault'] = None
        return plan

    def fit(self, ctx, plan, p, backend, name):
        set_knobs(plan['knobs'])
        ds = load(ctx, backend, p['columns'], p['rows'], name, knobs=plan['knobs'])
        if p['view']:
            v = ds.select(p['view'])
            ds = v if len(v) >= 2 else ds
        m = make_deep(p['deep']) if p.get('deep') else make_knn(p['knn'])
        m.verbose = p['verbose']
        train(m, p, ds)
        if p['used']:
            answers(m, p)
        return m, ds

    def execute(self, ctx, plan):
        from DRecPy.Recommender import RecommenderABC
        os.makedirs(ctx.path('out'))
        target = ctx.path('out', 'model.bin')
        with open(ctx.path('out', 'model'), 'w') as f:
            f.write('not yours\n')
        new, old = plan['new'], plan['old']
        if any(p and p.get('deep') and not fits_deep(p['deep'], q['rows']) for p in (new, old) for q in (new, old) if q):
            return

        def content():
            return open(target, 'rb').read() if os.path.exists(target) else None

        def count():
            m, _ = self.fit(ctx, plan, new, plan['backend'], 'new')
            a = answers(m, new)
            ctx.shim.arm(ctx.path('out'))
            err = None
            try:
                m.save(target)
            except Exception as e:
                err = short(e)
            ctx.shim.disarm()
            return {'n': ctx.shim.count(), 'answers': a, 'err': err}

        def save_old():
            m, _ = self.fit(ctx, plan, old, 'mem', 'old')
            a = answers(m, old)
            m.save(target)
            return a

        def read(p, refit=False):
            """A new process."""
            def go():
                try:
                    m = RecommenderABC.load(target)
                except Exception as e:
                    return {'error': short(e)}
                try:
                    a = answers(m, p)
                    if refit:
                        x = self.other(plan)
                        fresh, _ = self.fit(ctx, plan, dict(x, knn=p['knn'], deep=p.get('deep'), used=False), 'mem', 'x1')
                        ds = load(ctx, 'mem', x['columns'], x['rows'], 'x2', knobs=plan['knobs'])
                        if x['view']:
                            v = ds.select(x['view'])
                            ds = v if len(v) >= 2 else ds
                        train(m, dict(p, copy=x['copy']), ds)
                        if answers(m, x) != answers(fresh, x):
                            raise Violation('wrong-model', 'a loaded model that was fitted again answers differently from a '
                                                           'new one')
                        ctx.probe('refitted')
                except Violation:
                    raise
                except Exception as e:
                    raise Violation('exception', f'using a loaded model raised {short(e)}')
                return {'answers': a}
            return ctx.fork(go)[1]

        _, info = ctx.fork(count)
        what = f'save of a {(new["knn"] or new["deep"])["model"]} model fitted on a {plan["backend"]} dataset'
        if info['err']:
            if plan['backend'] == 'mem':
                raise Violation('exception', f'{what} raised {info["err"]}')
            if content() is not None:
                raise Violation('torn-file', f'{what} raised {info["err"]}, but left a file')
            ctx.probe('refused')
        else:
            got = read(new, plan['refit'])
            if got.get('answers') != info['answers']:
                raise Violation('wrong-model', f'{what}: {self.differ(got, info["answers"])}')
            ctx.probe('round_trips')
            os.remove(target)
        a_old = ctx.fork(save_old)[1] if old else None
        before = content()
        others = sorted(set(os.listdir(ctx.path('out'))) - {'model.bin'})
        if others != ['model']:
            raise Violation('left-over', f'{what}: files {others} next to the saved one')

        def attempt():
            m, ds = self.fit(ctx, plan, new, plan['backend'], 'new')
            if plan.get('reload') and old:
                if plan['stamp']:
                    os.utime(target, (1000, 1000))
                self.reload(ctx, target, old, a_old, what + ': the older model, loaded before the save')
            f = plan['fault'] or {}
            n, kind = 1 + int(plan['frac'] * info['n']), f.get('kind')
            if kind == 'crash':
                ctx.shim.arm(ctx.path('out'), crash_at=n, crash_mode=f['mode'])
            elif kind == 'fail':
                ctx.shim.arm(ctx.path('out'), fail_at=n, errno=f['errno'], sticky=f['sticky'])
            elif kind == 'short':
                ctx.shim.arm(ctx.path('out'), short=f['bytes'])
            raised = None
            try:
                m.save(target)
            except Exception as e:
                raised = short(e)
            ctx.shim.disarm()
            if plan.get('reload') and not raised:
                if plan['stamp']:       # a clock too coarse to tell the two files apart
                    os.utime(target, (1000, 1000))
                self.reload(ctx, target, new, info['answers'], what + ' over an older one: loaded by the process that saved it',
                            (plan, m))
            if kind == 'fail':
                ctx.fault('disk_' + errno.errorcode[f['errno']] + ('', '_sticky', '_full')[f['sticky']], ctx.shim.fired())
            if kind == 'short':
                ctx.fault('short_write', ctx.shim.fired_short())
            if raised and not info['err'] and not (kind == 'fail' and ctx.shim.fired()):
                raise Violation('exception', f'{what} raised {raised}')
            if answers(m, new) != info['answers']:
                raise Violation('model-changed', f'{what} changed the model')
            left = sorted(set(os.listdir(ctx.path('out'))) - {'model', 'model.bin'})
            out = {'raised': raised, 'left': left, 'same': content() == before}
            if raised and not info['err'] and plan['again']:
                m.save(target)
                out['again'] = True
            return out

        status, res = ctx.fork(attempt)
        now = content()
        what += (' over an older one' if old else '') + f' with fault {plan["fault"]}'
        loaded = None
        if now is not None and now != before:
            loaded = read(new)
        is_old, is_new = now == before, loaded is not None and loaded.get('answers') == info['answers']
        if status == 'crash':
            ctx.probe('crash_left_new' if is_new else 'crash_left_old')
            if not (is_old or is_new):
                raise Violation('torn-file', f'{what}: after the crash the file is neither the old nor the new model '
                                             f'({self.differ(loaded, info["answers"])})')
        elif res['raised'] and not res.get('again'):
            if not is_old:
                raise Violation('torn-file', f'{what} raised {res["raised"]}, but the file changed')
        else:
            if res['raised'] and not res['same']:
                raise Violation('torn-file', f'{what} raised {res["raised"]}, but the file changed')
            if not is_new and not (is_old and read(new).get('answers') == info['answers']):
                raise Violation('wrong-model', f'{what} succeeded: {self.differ(loaded, info["answers"])}')
        # (a refused save whose clean-up fails as well has to leave its temporary file)
        if status != 'crash' and res['left'] and not (plan['fault'] or {}).get('sticky') \
                and not (info['err'] and (plan['fault'] or {}).get('kind') == 'fail'):
            raise Violation('left-over', f'{what}: left {res["left"]}')
        if is_old and old:
            got = read(old)
            if got.get('answers') != a_old:
                raise Violation('wrong-model', f'{what}: the older model: {self.differ(got, a_old)}')
        if status == 'crash' and not info['err']:       # started again
            ctx.fork(lambda: self.fit(ctx, plan, new, plan['backend'], 'new')[0].save(target))
            got = read(new)
            if got.get('answers') != info['answers']:
                raise Violation('wrong-model', f'{what}: saving again after the crash: {self.differ(got, info["answers"])}')
        if open(ctx.path('out', 'model')).read() != 'not yours\n':
            raise Violation('foreign-file', 'a file next to the saved one was changed')
        ctx.log(status, res, is_old, is_new)
        if new.get('deep'):
            ctx.probe('deep_models')
        ctx.state((str(new['knn'] or new['deep']), len(new['rows']), old is None, plan['fault'], int(plan['frac'] * info['n']), status,
                   bool(res and res['raised'])))

    def reload(self, ctx, target, p, want, what, twice=None):
        from DRecPy.Recommender import RecommenderABC
        try:
            m = RecommenderABC.load(target)
            a = answers(m, p)
            if a == want and twice:      # using one loaded model (and the saved one) leaves another one alone
                plan, saved = twice
                other = RecommenderABC.load(target)
                x = self.other(plan)
                ds = load(ctx, 'mem', x['columns'], x['rows'], 'x3', knobs=plan['knobs'])
                train(other, dict(p, copy=x['copy']), ds)
                if answers(m, p) != want:
                    raise Violation('wrong-model', f'{what}: fitting another loaded model again changed it')
                if answers(RecommenderABC.load(target), p) != want:
                    raise Violation('wrong-model', f'{what}: fitting a loaded model again changed what later loads return')
                if answers(saved, p) != want:
                    raise Violation('wrong-model', f'{what}: fitting the loaded model again changed the saved one')
        except Violation:
            raise
        except Exception as e:
            raise Violation('wrong-model', f'{what}: {short(e)}')
        if a != want:
            raise Violation('wrong-model', f'{what}: {self.differ({"answers": a}, want)}')
        ctx.probe('same_process_loads')

    def other(self, plan):
        return plan['old'] or plan['new']

    def differ(self, got, want):
        if got is None:
            return 'no file'
        if 'error' in got:
            return f'loading raised {got["error"]}'
        for g, w in zip(got['answers'], want):
            if g != w:
                return f'the loaded model answers {g}, the saved one {w}'
        return 'the loaded model answers differently'

    def shrink(self, plan):
        if plan['old']:
            yield dict(plan, old=None)
        for k in ('refit', 'again', 'reload', 'stamp'):
            if plan[k]:
                yield dict(plan, **{k: False})
        rows = plan['new']['rows']
        size = max(1, len(rows) // 2)
        while size >= 1:
            for s in range(1, len(rows), size):
                if len(rows) - size >= 2:
                    yield dict(plan, new=dict(plan['new'], rows=rows[:s] + rows[s + size:]))
            size //= 2


PROP = S15()
