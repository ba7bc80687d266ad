"""Recommenders used as workload: scripted ones (every prediction known in advance) and the repository's own."""

from .dsmodel import norm


def score(a, b, salt):
    """A value in [0, 5) that is distinct for distinct pairs in practice."""
    x = (a * 7919 + b * 104729 + salt * 15485863 + 12345) * 2654435761 % (1 << 32)
    x ^= x >> 15
    x = x * 2246822519 % (1 << 32)
    return 5.0 * ((x ^ (x >> 13)) % (1 << 31)) / (1 << 31)


_CLS = []


def scripted():
    """Class of a recommender that scores by a fixed formula; `holes` percent of the pairs have no prediction and
    the users in `bad` make it raise."""
    if _CLS:
        return _CLS[0]
    from DRecPy.Recommender import RecommenderABC

    class Scripted(RecommenderABC):
        def __init__(self, salt=0, holes=0, bad=(), **kw):
            super().__init__(**kw)
            self.salt, self.holes, self.bad = salt, holes, set(bad)
            self.ranked = []                    # (user, items) of every list it was asked to rank

        def rank(self, user_id, item_ids, *a, **kw):
            self.ranked.append((user_id, list(item_ids)))
            return super().rank(user_id, item_ids, *a, **kw)

        def _pre_fit(self, learning_rate, neg_ratio, reg_rate, **kwds):
            pass

        def _sample_batch(self, batch_size, **kwds):
            raise NotImplementedError

        def _predict_batch(self, batch_samples, **kwds):
            raise NotImplementedError

        def _compute_batch_loss(self, predictions, desired_values, **kwds):
            raise NotImplementedError

        def _predict(self, uid, iid, **kwds):
            if uid is None or iid is None:
                return None
            if self.interaction_dataset.uid_to_user(uid) in self.bad:
                raise ValueError('no prediction for this user')
            return value(uid, iid, self.salt, self.holes)

    _CLS.append(Scripted)
    return Scripted


def value(uid, iid, salt, holes):
    uid, iid = int(uid), int(iid)
    if (uid * 31 + iid * 17 + salt) % 100 < holes:
        return None
    return score(uid, iid, salt)


def rnd(x):
    return None if x is None else round(float(x), 9)


def answers(m, plan):
    """Everything observable about a fitted model."""
    users = sorted({r[0] for r in plan['rows']}, key=str)
    items = sorted({r[1] for r in plan['rows']}, key=str)
    out = [[m.n_users, m.n_items, m.n_rows, norm(m.min_interaction), norm(m.max_interaction)]]
    known = [u for u in users if m.interaction_dataset.user_to_uid(u) is not None]
    for u in users:
        for i in items:
            out.append(['predict', u, i, rnd(m.predict(u, i, skip_errors=True))])
    for u in known:
        for novelty in (True, False):
            # equal scores may come in any order of items
            out.append(['recommend', u, novelty, sorted(([rnd(s), str(norm(i))] for s, i in m.recommend(u, novelty=novelty)),
                                                        key=lambda x: (-x[0], x[1]))])
            out.append(['rank', u, novelty, sorted(([rnd(s), str(norm(i))] for s, i in m.rank(u, items, novelty=novelty)),
                                                   key=lambda x: (-x[0], x[1]))])
    return out


SIMS = ['adjusted_cosine', 'cosine', 'cosine_cf', 'jaccard', 'msd', 'pearson']


def gen_knn(rng):
    return {'model': rng.choice(['user', 'item']), 'k': rng.choice([1, 2, 3, 10]), 'm': rng.choice([0, 0, 1, 2]),
            'sim': rng.choice(SIMS), 'agg': rng.choice(['mean', 'weighted_mean']),
            'shrinkage': rng.choice([None, None, 10]), 'avg': rng.random() < 0.4}


def make_knn(p, **kw):
    from DRecPy.Recommender.Baseline import ItemKNN, UserKNN
    cls = UserKNN if p['model'] == 'user' else ItemKNN
    return cls(k=p['k'], m=p['m'], sim_metric=p['sim'], aggregation=p['agg'], shrinkage=p['shrinkage'],
               use_averages=p['avg'], verbose=False, **kw)


_MF = []


def factor_model():
    """Class of a small matrix factorisation recommender trained by the base class: real sampler, real gradients, a plain
    gradient descent optimiser.  It notes its initial weights and its batches, so that training can be recomputed."""
    if _MF:
        return _MF[0]
    import numpy as np
    import tensorflow as tf
    from DRecPy.Recommender import RecommenderABC
    from DRecPy.Sampler import PointSampler

    class Descent:
        def __init__(self, rate):
            self.rate = rate

        def apply_gradients(self, pairs):
            for g, v in pairs:
                v.assign(v - self.rate * tf.convert_to_tensor(g))

    class Factors(RecommenderABC):
        def __init__(self, own_optimizer=True, fail=None, **kw):
            super().__init__(**kw)
            self.own, self.fail, self.noted = own_optimizer, fail, None

        def _pre_fit(self, learning_rate, neg_ratio, reg_rate, **kwds):
            rs = np.random.RandomState(5)
            p, q = rs.rand(self.n_users, 2), rs.rand(self.n_items, 2)
            self.P, self.Q = tf.Variable(p), tf.Variable(q)
            self._register_trainables([self.P, self.Q])
            if self.own:
                self._register_optimizer(Descent(learning_rate))
            self.sampler = PointSampler(self.interaction_dataset, neg_ratio, None, self.seed)
            self.noted = {'p': p, 'q': q, 'batches': []}

        def _sample_batch(self, batch_size, **kwds):
            if self.fail is not None:
                self.fail('batch')
            b = [(int(u), int(i), float(x)) for u, i, x in self.sampler.sample(batch_size)]
            self.noted['batches'].append(b)
            return b

        def _predict_batch(self, b, **kwds):
            u, i = [x[0] for x in b], [x[1] for x in b]
            # not tf.gather: Keras' Adam treats a row that occurs twice in a sparse gradient in its own way
            p = tf.matmul(tf.one_hot(u, self.P.shape[0], dtype=self.P.dtype), self.P)
            q = tf.matmul(tf.one_hot(i, self.Q.shape[0], dtype=self.Q.dtype), self.Q)
            return tf.reduce_sum(p * q, axis=1), [x[2] for x in b]

        def _compute_batch_loss(self, predictions, desired, **kwds):
            return tf.reduce_mean((predictions - tf.constant(desired, dtype=predictions.dtype)) ** 2)

        def _compute_reg_loss(self, *a, **kwds):
            return 0

        def _predict(self, uid, iid, **kwds):
            if uid is None or iid is None:
                return None
            return float(np.dot(self.P.numpy()[uid], self.Q.numpy()[iid]))

    Factors.Descent = Descent
    _MF.append(Factors)
    return Factors


def retrain(noted, rate, adam=False):
    """Weights after 0, 1, 2, ... of the noted batches: plain gradient descent, or Adam (a new optimiser, so no moments yet)."""
    import numpy as np
    p, q = noted['p'].copy(), noted['q'].copy()
    out = [(p.copy(), q.copy())]
    moments = [[0.0, 0.0], [0.0, 0.0]]
    for b in noted['batches']:
        gp, gq = np.zeros_like(p), np.zeros_like(q)
        for u, i, x in b:
            e = 2.0 / len(b) * (float(np.dot(p[u], q[i])) - x)
            gp[u] += e * q[i]
            gq[i] += e * p[u]
        if adam:
            t = len(out)
            step = rate * np.sqrt(1 - 0.999 ** t) / (1 - 0.9 ** t)
            for g, j in ((gp, 0), (gq, 1)):
                moments[j][0] = 0.9 * moments[j][0] + 0.1 * g
                moments[j][1] = 0.999 * moments[j][1] + 0.001 * g * g
            p, q = [w - step * m / (np.sqrt(v) + 1e-7) for w, (m, v) in zip((p, q), moments)]
        else:
            p, q = p - rate * gp, q - rate * gq
        out.append((p.copy(), q.copy()))
    return out


def gen_deep(rng, models=('cdae', 'dmf', 'caser'), exact=False):
    """One of the shipped deep recommenders; exact: nothing random in its training steps."""
    p = {'model': rng.choice(list(models)), 'seed': rng.choice([0, 7, 23]), 'epochs': rng.choice([1, 2, 3, 4]),
         'batch': rng.choice([1, 3]), 'neg': rng.choice([0, 1, 1, 2]), 'rate': 0.05, 'reg': rng.choice([0.0, 0.001, 0.1])}
    if p['model'] == 'cdae':
        p.update(factors=rng.choice([1, 3]), corruption=0.0 if exact else rng.choice([0.0, 0.3]), loss=rng.choice(['mse', 'bce']))
    elif p['model'] == 'dmf':
        p.update(factors=rng.choice([[4], [4, 2]]), nce=rng.random() < 0.6, norm=rng.random() < 0.5)
    else:
        p.update(L=rng.choice([1, 2]), T=1, dropout=0.0 if exact else rng.choice([0.0, 0.4]), neg=rng.choice([1, 2]))
    return p


def make_deep(p, **kw):
    from DRecPy.Recommender import CDAE, DMF, Caser
    kw = dict({'verbose': False, 'seed': p['seed']}, **kw)
    if p['model'] == 'cdae':
        return CDAE(hidden_factors=p['factors'], corruption_level=p['corruption'], loss=p['loss'], **kw)
    if p['model'] == 'dmf':
        return DMF(user_factors=list(p['factors']), item_factors=list(p['factors']), use_nce=p['nce'], l2_norm_vectors=p['norm'],
                   **kw)
    return Caser(L=p['L'], T=p['T'], d=3, n_v=2, n_h=2, dropout_rate=p['dropout'], **kw)


def fit_deep(m, p, ds, copy=False, **kw):
    m.fit(ds, copy_dataset=copy, **dict(dict(epochs=p['epochs'], batch_size=p['batch'], neg_ratio=p['neg'],
                                             learning_rate=p['rate'], reg_rate=p['reg']), **kw))


def fits_deep(p, rows):
    """Whether the model can be trained on these [user, item, interaction, ...] records at all."""
    pairs = {(r[0], r[1]) for r in rows}
    users, items = {u for u, _ in pairs}, {i for _, i in pairs}
    values = {r[2] for r in rows}
    if len(pairs) < 2 or len(values) < 2 or not all(v > 0.001 for v in values):
        return False
    if p['model'] == 'caser':
        n = {u: sum(1 for x, _ in pairs if x == u) for u in users}
        return all(c >= p['L'] + p['T'] and c + 2 * p['T'] * p['neg'] <= len(items) for c in n.values())
    return not p['neg'] or len(pairs) < len(users) * len(items)


def gen_deep_rows(rng):
    """Records every deep recommender can be trained on."""
    nu, ni = rng.randint(2, 4), rng.randint(8, 10)
    rows, t = [], 0
    for u in range(nu):
        for i in rng.sample(range(ni), rng.randint(3, 4)):
            t += 1
            rows.append([u * 3 + 1, i * 2 + 5, rng.randint(1, 5), 1000 + (t * 7919) % 101])
    rows[0][2], rows[1][2] = 2, 5
    rng.shuffle(rows)
    return ['user', 'item', 'interaction', 'timestamp'], rows


def deep_weights(m):
    return [w.numpy().copy() for w in m.trainable_weights] + \
        [a.copy() for x in m.trainable_layers + m.trainable_models for a in x.get_weights()]


def deep_step(m, p, batch, weights, rate):
    """The weights after one step of gradient descent from the given ones."""
    import tensorflow as tf
    vs = list(m.trainable_weights) + [v for x in m.trainable_layers + m.trainable_models for v in x.trainable_weights]
    for v, w in zip(vs, weights):
        v.assign(w)
    with tf.GradientTape() as tape:
        a, b = m._predict_batch(batch)
        loss = m._compute_batch_loss(a, b) + m._compute_reg_loss(p['reg'], len(batch), m.trainable_models, m.trainable_layers,
                                                                 m.trainable_weights)
    gs = tape.gradient(loss, vs)
    return [w if g is None else w - rate * tf.convert_to_tensor(g).numpy() for w, g in zip(weights, gs)]
