"""Queries, samples, query by disagreement and metrics on a pool: P20, P30, P32, P33 (spec/Pool.tla)."""
PROPS = ['P20', 'P30', 'P32', 'P33']
TRACE = 'PoolTrace'
SCRIPT_TIMEOUT = 60


def generate(ctx):
    q = ctx.quick
    ctx.model('PoolMC', 'INIT Init\nNEXT Next\nCONSTANTS N = {} MaxS = {} SimN = {{3}} Depth = 1 Focus = {{}}\nINVARIANT SelectableRight AlwaysSelectable Fewer ScoresRight LowerBound\n'.format(
        *((5, 3) if q else (6, 4))))
    n, depth = (350, 16) if q else (6000, 20)
    out = ctx.model('PoolMC', 'INIT Sim0\nNEXT SimNext\nCONSTANTS N = 1 MaxS = 1 SimN = {{1, 2, 3, 4, 5, 6, 9, 14}} Depth = {} Focus = {{{}}}\nINVARIANT SimExport\n'.format(depth, FOCUS[ctx.prop]),
                    simulate=(n, depth + 2)).printed('SCRIPT')
    return [dict(s['s'], ops=s['ops'], variant=j + 7 * ctx.seed, only=ctx.prop) for j, s in enumerate(out)]


USED = dict(P20=('query', 'random'), P30=('qbd',), P32=('scores', 'training', 'unknown', 'tsm', 'entropy'), P33=('stratified', 'sampler', 'fixed'))

FOCUS = dict(P20='7, 8, 9, 10', P30='16', P32='6, 19, 20, 21, 22, 23', P33='12, 13, 14, 15')


def nontrivial(script, trace):
    return any(s['op'] in USED[script['only']] for s in trace['steps'])


FITS = []


def execute(script):
    import importlib
    import math
    import numpy as np
    import aideme.active_learning as al
    from aideme.explore import LabeledSet, PartitionedDataset
    from aideme.initial_sampling import fixed_sampler, random_sampler, stratified_sampler
    from aideme.utils import metrics
    from sklearn.base import BaseEstimator, ClassifierMixin
    v, n = script['variant'], script['n']
    rng = np.random.RandomState(v)
    ids = [list(range(n)), [5 * k - 3 for k in range(n)], [11 + 2 * k for k in range(n)]][v % 3]
    if v % 3:
        rng.shuffle(ids)
    ids = [int(a) for a in ids]
    point = {a: k + 1 for k, a in enumerate(ids)}
    data = np.array([[a * .5, 1. + a] for a in ids])
    row = {tuple(r): k + 1 for k, r in enumerate(data.tolist())}
    of = lambda X: [row.get(tuple(r), -7) for r in np.asarray(X).tolist()]
    order = rng.permutation(n)
    ds = PartitionedDataset(data[order].copy(), np.array(ids)[order])
    perm = rng.permutation(n)
    truth = LabeledSet(np.array([script['truth'][k] for k in perm], dtype=float if v % 2 else int), np.array([script['partial'][k] for k in perm]), [ids[k] for k in perm])
    num = lambda x: int(round(float(x) * 1e6)) if math.isfinite(float(x)) else -3
    table = lambda values, X, scale=1.: np.array([values[k - 1] * scale for k in of(X)])

    class Stub(al.ActiveLearner):
        def __init__(self, values, scale=1.):
            self.values, self.scale = values, scale

        def rank(self, X):
            return table(self.values, X, self.scale)
        predict = predict_proba = rank

    def calls(k, f):
        """The distinct outcomes of k calls, as points, and the number of calls which failed"""
        seen, bad = {}, 0
        for _ in range(k):
            try:
                out = f()
            except ValueError:
                bad += 1
                if bad == 3 and not seen:
                    break
                continue
            out = tuple(point.get(int(a), -8) for a in np.ravel(out).tolist())
            seen[out] = 1
        return [list(o) for o in seen], bad

    def asked(view):
        assert of(view.data) == [point.get(int(a), -8) for a in view.index], 'index and data of the answer disagree'
        return view.index

    class Model(ClassifierMixin, BaseEstimator):
        """Predicts according to a table for the way it was trained"""
        def __sklearn_clone__(self):
            return Model()

        def fit(self, X, y, sample_weight=None):
            rows = of(X)
            w = np.ones(len(rows)) if sample_weight is None else np.asarray(sample_weight)
            back = [float(a) for a, k in zip(y, rows) if k not in now['known']]
            self.fit_ = [[k, int(a) if a in (0, 1) else -5, 'one' if c == 1 else 'small' if abs(c - now['weight']) < 1e-15 else 'other'] for k, a, c in zip(rows, y, w)]
            self.kind_ = 0 if not back else 1 if back[0] == 1 else 2
            FITS.append(self)
            return self

        def predict(self, X):
            return table(now['tabs'][self.kind_], X)
        predict_proba = predict
    steps, now, qbd, old = [], {}, None, {}

    def again(s, make, **params):
        """Sometimes the object made before for this operation, with its parameters; otherwise a new one"""
        if s['op'] not in old or (v + len(steps)) % 3 == 0:
            old[s['op']] = make(), params
        s.update(old[s['op']][1])
        return old[s['op']][0]
    for j, o in enumerate(script['ops']):
        op = o['op']
        s = dict(o, out=[], bad=0, vals=[], fits=[], rank=[], pred=[], prefix='')
        steps.append(s)
        np.random.seed(1000 * v + j)
        used = op in USED[script['only']]
        if op == 'label':
            s['y'] = list(o['y'])
            if o['ids']:
                ds.move_to_labeled(truth.get_index([ids[k - 1] for k in o['ids']]))
        elif op == 'infer':
            ds.move_to_inferred([ids[k - 1] for k in o['ids']])
        elif op == 'clear':
            ds.clear()
        elif not used:
            s['op'] = 'skip'
        elif op == 'query':
            # scores of all sizes, also very close to each other, in the order of the table
            scores = [[a, a * 1e-9, 1 + a * 1e-9, -1e9 + a, -1 / a, float('inf') if a == 6 else a, 2.**-1070 * a][(v + j) % 7] for a in o['sc']]
            learner = Stub(scores)
            if ds.unlabeled_size:
                s['out'], s['bad'] = calls(1500 if o['k'] and n <= 6 else 300, lambda: asked(learner.next_points_to_label(ds, o['k'] or None)))
        elif op == 'random':
            learner = again(s, lambda: al.RandomSampler(None, batch_size=o['m']), m=o['m'])
            s['out'], s['bad'] = calls(400, lambda: asked(learner.next_points_to_label(ds, o['k'] or None)))
        elif op == 'stratified':
            try:
                sampler = again(s, lambda: stratified_sampler(truth, pos=o['k'], neg=o['m'], neg_in_all_subspaces=bool(o['names'])), k=o['k'], m=o['m'], names=o['names'])
                s['out'], s['bad'] = calls(500, lambda: sampler(ds))
            except ValueError:
                s['bad'] = 1
        elif op == 'sampler':
            sampler = again(s, lambda: random_sampler(o['k']), k=o['k'])
            s['out'], s['bad'] = calls(400, lambda: sampler(ds))
        elif op == 'fixed':
            sampler = again(s, lambda: fixed_sampler([ids[k - 1] for k in o['ids']]), ids=o['ids'])
            s['out'], s['bad'] = calls(2, lambda: sampler(ds))
        elif op == 'qbd' and ds.labeled_size:
            if qbd is None or (v + j) % 4 == 0:     # otherwise the learner is trained once more
                size, now['weight'] = o['k'], [1e-5, .5, 2.][o['m'] - 1]
                qbd = al.QueryByDisagreement(Model(), background_sample_size=size, background_sample_weight=now['weight'])
            s['k'] = size
            now['known'] = tuple(of(ds.labeled.data))
            tabs = [list(a) for a in o['tabs']]
            if ds.unlabeled_size == 0:    # the models cannot be told apart by what they were trained on
                s['tabs'] = tabs = [tabs[0]] * 3
            now['tabs'] = tabs
            del FITS[:]
            qbd.fit_data(ds)
            fits = list(FITS)
            main = [m for m in fits if m.kind_ == 0][:1]
            s['fits'] = [m.fit_ for m in main] + [m.fit_ for m in fits if m not in main]
            s['rank'] = [num(a) for a in qbd.rank(data)]
            s['pred'] = [int(a) for a in qbd.predict(data)]
        elif op == 'scores':
            prefix = ['', 'test_', 'a.'][(v + j) % 3]
            X, y = np.array([data[k - 1] for k in o['ids']]), np.array([script['truth'][k - 1] for k in o['ids']])
            names = [tuple, list][v % 2](o['names'])
            f = again(s, lambda: metrics.classification_metrics(X, y, names, prefix=prefix), prefix=prefix, ids=o['ids'], names=o['names'])
            f(ds, Stub([1 - a for a in o['sc']]))
            s['vals'] = [[k, num(a)] for k, a in f(ds, Stub(o['sc'])).items()]
        elif op == 'training' and ds.labeled_size:
            prefix = ['', 'train_'][(v + j) % 2]
            f = again(s, lambda: metrics.training_classification_metrics(o['names'], prefix=prefix), prefix=prefix, names=o['names'])
            s['vals'] = [[k, num(a)] for k, a in f(ds, Stub(o['sc'])).items()]
        elif op == 'unknown':
            try:
                if o['k']:
                    f = metrics.training_classification_metrics(o['names'])
                else:
                    f = metrics.classification_metrics(data, script['truth'], o['names'])
            except ValueError:
                s['bad'] = 1
        elif op == 'tsm':
            learner = Stub([0] * n)
            assert metrics.three_set_metric(ds, learner) == {}
            learner.polytope_model = Stub(o['sc'], .5)
            with np.errstate(all='ignore'):
                s['vals'] = [[k, num(a)] for k, a in metrics.three_set_metric(ds, learner).items()]
        elif op == 'entropy':
            s['vals'] = [[k, num(a / math.log(2))] for k, a in metrics.prediction_entropy(ds, Stub(o['sc'], .5)).items()]
    return dict(n=n, truth=script['truth'], partial=script['partial'], steps=steps)
