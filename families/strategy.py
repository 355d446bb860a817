"""Query strategies: P34 (spec/Strategy.tla)."""
PROPS = ['P34']
TRACE = 'StrategyTrace'
SCRIPT_TIMEOUT = 60


def generate(ctx):
    q = ctx.quick
    for n, hyp in ([(2, 5), (3, 3)] if q else [(2, 6), (3, 4)]):
        ctx.model('StrategyMC', 'INIT Init\nNEXT Next\nCONSTANTS N = {} Hyp = {} Depth = 1\nINVARIANT Sound NoPointTwice Halving Reduces Concave EntropyRefines\nPROPERTY Progress\nCHECK_DEADLOCK FALSE\n'.format(n, hyp))
    n, depth = (700, 8) if q else (9000, 10)
    out = ctx.model('StrategyMC', 'INIT SimInit\nNEXT SimNext\nCONSTANTS N = 1 Hyp = 1 Depth = {}\nINVARIANT SimExport\n'.format(depth),
                    simulate=(n, depth + 2)).printed('SCRIPT')
    return [dict(s['s'], ops=s['ops'], variant=j + 11 * ctx.seed) for j, s in enumerate(out) if len(s['s']['pool']) > 2]


def nontrivial(script, trace):
    return any(s['op'] == 'label' and not s['skip'] for s in trace['steps'])


def execute(script):
    import contextlib
    import io
    import math
    import warnings
    import numpy as np
    import aideme.active_learning as al
    from aideme.active_learning.version_space.categorical import CategoricalActiveLearner, MultiSetActiveLearner
    from aideme.explore import LabeledSet, PartitionedDataset
    from sklearn.base import BaseEstimator, ClassifierMixin, clone
    from sklearn.ensemble import RandomForestClassifier
    from sklearn.linear_model import LogisticRegression
    from sklearn.naive_bayes import GaussianNB
    from sklearn.neighbors import KNeighborsClassifier
    from sklearn.svm import SVC
    from sklearn.tree import DecisionTreeClassifier
    warnings.filterwarnings('ignore')
    kind, v, o, n = script['kind'], script['variant'], script['opts'], len(script['pool'])
    X = np.array(script['pool'], dtype=float)
    y = np.array(script['y'], dtype=[float, int][v % 2])
    ids = [[k, 3 * k + 7, 50 - 2 * k][v % 3] for k in range(n)]
    number = {a: k + 1 for k, a in enumerate(ids)}
    order = np.random.RandomState(v).permutation(n)
    ds = PartitionedDataset(X[order].copy(), np.array(ids)[order])
    num = lambda x: int(round(float(x) * 1e6)) if abs(float(x)) < 2000 else 2000000000 if float(x) > 0 else -2000000000
    row = {tuple(r): k for k, r in enumerate(X.tolist())}
    C, gamma = [1., 100., 1e5, .5][o[0]], [.5, 1., .1, 2.][o[1]]
    both = kind in ('real', 'simple', 'ratio')
    form = 'linear' if v % 4 == 3 else 'rbf'
    votes = [2, 4, 8, 8][o[2]]
    size = [None, n + 3, None, 1 + v % 3][o[3]] if kind == 'entropy' else None
    vs = dict(n_samples=votes if kind == 'entropy' else 2 + v % 7, warmup=[5, 20, 1, 50][o[4]], thin=[1, 3, 5, 2][o[5]], cache_samples=o[6] % 2 == 0, single_chain=o[7] % 2 == 0, rounding=o[6] > 1,
              rounding_cache=o[6] > 1 and o[7] > 1)

    class Stub(ClassifierMixin, BaseEstimator):
        def __init__(self, columns=False):
            self.columns = columns

        def fit(self, Z, t, sample_weight=None):
            self.classes_ = np.unique(t)
            return self

        def _values(self, Z):
            return np.array([script['tab'][row[tuple(r)]] for r in np.asarray(Z).tolist()])

        def predict(self, Z):
            return (self._values(Z) > 4).astype(float)

        def predict_proba(self, Z):
            p = self._values(Z) / 8.
            if not self.columns:
                return p
            return np.c_[1 - p, p] if len(self.classes_) == 2 else np.ones((len(p), 1))

    real = [LogisticRegression(), DecisionTreeClassifier(random_state=1, max_depth=2), RandomForestClassifier(n_estimators=4, random_state=2), GaussianNB(), KNeighborsClassifier(2)][v % 5] if n else None
    wrapped = Stub(kind == 'columns') if kind in ('flat', 'columns') else clone(real)
    wrapper = o[4] if kind in ('flat', 'columns', 'real') else 0
    if kind in ('flat', 'columns', 'real'):
        if isinstance(wrapped, KNeighborsClassifier) and wrapper == 2:
            wrapper = 0    # takes no weights
        learner = al.RandomSampler(wrapped) if wrapper == 1 else al.QueryByDisagreement(wrapped, background_sample_size=3) if wrapper == 2 else al.UncertaintySampler(wrapped)
    elif kind in ('simple', 'ratio'):
        learner = (al.SimpleMargin if kind == 'simple' else al.RatioMargin)(C=C, gamma=gamma, kernel=form)
    elif kind == 'linear':
        learner = al.LinearVersionSpace(**vs)
    elif kind == 'kernel':
        learner = al.KernelVersionSpace(gamma=gamma, **vs)
    elif kind == 'entropy':
        learner = al.EntropyReductionLearner(data_sample_size=size, gamma=gamma, **vs)
    else:
        learner = CategoricalActiveLearner() if kind == 'categorical' else MultiSetActiveLearner()

    def norm2(Z, t):
        """squared norm of the weights of a support vector machine, by definition"""
        svm = SVC(C=C, kernel=form, gamma=gamma).fit(Z, t)
        S, a = svm.support_vectors_, svm.dual_coef_[0]
        K = S @ S.T if form == 'linear' else np.exp(-gamma * ((S[:, None, :] - S[None, :, :]) ** 2).sum(axis=2))
        return float(a @ K @ a)

    seen, steps = [], []
    with contextlib.redirect_stdout(io.StringIO()), np.errstate(all='ignore'):
        for j, op in enumerate(script['ops']):
            s = dict(op=op['op'], b=[k for k in op['b'] if k not in seen], at=list(op['at']), k=op['k'], skip=0, proba=[], pred=[], rank=[], want=[], labels=[], pred2=[], votes=[], asked=[], size=size or 0)
            steps.append(s)
            np.random.seed(100 * v + j)
            if op['op'] == 'clear':
                ds.clear()
                learner.clear()
                seen = []
                continue
            for cls in ([0, 1] if both else [None, None] if kind in ('linear', 'kernel', 'entropy') else []):
                now = seen + s['b']
                if cls is None and len(now) >= 2 or cls is not None and any(script['y'][k - 1] == cls for k in now):
                    continue
                s['b'] += [k for k in range(1, n + 1) if k not in now and (cls is None or script['y'][k - 1] == cls)][:1]
            seen = seen + s['b']
            if s['b']:
                rows = [k - 1 for k in s['b']]
                ds.move_to_labeled(LabeledSet(y[rows], index=[ids[k] for k in rows]))
            L = [k - 1 for k in seen]
            if not seen or both and len(set(y[L])) < 2 or kind in ('linear', 'kernel', 'entropy') and len(seen) < 2 or wrapper == 2 and len(seen) == n:
                s['skip'] = 1
                continue
            learner.fit_data(ds)
            Z = X[[k - 1 for k in s['at']]]
            s['pred'] = [int(a) for a in learner.predict(Z)]
            proba = learner.predict_proba(Z)
            s['proba'] = [num(a) for a in proba] if np.ndim(proba) == 1 else [-1] * len(Z)
            if wrapper in (1, 2):
                s['rank'] = None
            elif kind == 'items':
                np.random.seed(v)
                s['rank'] = [num(a) for a in learner.rank(Z)]
            else:
                s['rank'] = [num(a) for a in learner.rank(Z)]
            s['pred2'] = [int(a) for a in learner.predict(Z)] if kind != 'items' else s['pred']
            if len(seen) < n and wrapper not in (1, 2) and (op['k'] == 0 or op['k'] >= n):
                for r in range(3):
                    view = learner.next_points_to_label(ds, op['k'] or None)
                    assert [tuple(a) for a in view.data.tolist()] == [tuple(X[number[int(a)] - 1].tolist()) for a in view.index], 'index and data of the answer disagree'
                    s['asked'] += [number[int(a)] for a in view.index]
            if kind == 'real':
                own = clone(real).fit(X[L], y[L])
                s['want'] = [num(a) for a in own.predict_proba(X)[:, list(own.classes_).index(1)]]
                s['labels'] = [int(a) for a in own.predict(X)]
            elif kind == 'simple':
                s['want'] = [num(a) for a in SVC(C=C, kernel=form, gamma=gamma).fit(X[L], y[L]).decision_function(X)]
            elif kind == 'ratio':
                for x in X:
                    m = [norm2(np.vstack([X[L], x]), np.r_[y[L], c]) for c in (0, 1)]
                    s['want'].append([int(round(20000 * a / max(m))) for a in m] if min(m) > 1e-5 else [0, 0])
            elif kind in ('linear', 'kernel', 'entropy'):
                s['want'] = [num(a) for a in learner.predict_proba(X)]
            if kind == 'entropy':
                s['votes'] = [[int(a) for a in h] for h in learner.predict_all(X)]
    for s in steps:
        if s['rank'] is None:    # a strategy which does not score points
            s['rank'] = []
    return dict(kind=kind, form='columns' if kind == 'columns' else 'flat', scored=int(wrapper not in (1, 2)), votes=votes, n=n, pool=script['pool'], y=script['y'], tab=script['tab'], steps=steps)
