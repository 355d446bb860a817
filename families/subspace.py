"""Learners over subspaces: P21 (spec/Subspace.tla)."""
PROPS = ['P21']
TRACE = 'SubspaceTrace'
SCRIPT_TIMEOUT = 60


def generate(ctx):
    q = ctx.quick
    ctx.model('SubspaceMC', 'INIT Init\nNEXT Next\nCONSTANTS K = 3 Depth = 1 Kinds = {}\nINVARIANT Bounds Neutral Logical MostUncertain MultiExact\n')
    cfg = 'INIT SimInit\nNEXT SimNext\nCONSTANTS K = 1 Depth = {} Kinds = {{{}}}\nINVARIANT SimExport\n'
    out = []
    for kinds, n, depth in (('"stub"', 500 if q else 6000, 10), ('"vs"', 350 if q else 4000, 8), ('"margin"', 100 if q else 1500, 8)):
        out += ctx.model('SubspaceMC', cfg.format(depth, kinds), simulate=(n, depth + 2)).printed('SCRIPT')
    return [dict(s['s'], ops=s['ops'], variant=j + 13 * ctx.seed) for j, s in enumerate(out)]


def nontrivial(script, trace):
    return script['k'] > 1 and sum(s['op'] in ('fit', 'label') and bool(s['b']) for s in trace['steps']) > 1


def execute(script):
    import contextlib
    import io
    import warnings
    import numpy as np
    import aideme.active_learning as al
    from aideme.active_learning.version_space.subspace import SubspaceLearner
    from aideme.explore import LabeledSet, PartitionedDataset
    warnings.filterwarnings('ignore')
    kind, v, k, n = script['kind'], script['variant'], script['k'], script['n']
    ONE = 262144
    np.random.seed(v)
    num = lambda x, one=ONE: int(round(float(x) * one)) if abs(float(x)) < 2e9 / one else 2000000000

    class Stub(al.ActiveLearner):
        def __init__(self):
            self.h = 0

        def clone(self):
            return Stub()

        def clear(self):
            self.h = 0

        @staticmethod
        def weigh(X):
            return [sum((c + 1) * int(a) for c, a in enumerate(x)) for x in X]

        def fit(self, X, y):
            self.h = (7 * self.h + 1 + sum((j + 1) * (2 * int(l) + 1) * w for j, (w, l) in enumerate(zip(self.weigh(X), y)))) % 97

        def answer(self, X):
            return np.array([(self.h + 5 * w) % 97 for w in self.weigh(X)])

        def predict_proba(self, X):
            return self.answer(X) % 9 / 8.

        def predict(self, X):
            return (self.answer(X) // 9 % 2).astype(float)

        def rank(self, X):
            return (self.answer(X) % 7).astype(float)

    def blocks(part):
        """a partition in one of the forms numpy takes"""
        if not part:
            return None
        cols = [[c - 1 for c in p] for p in part]
        if v % 4 == 1:
            return [np.array(p) for p in cols]
        if v % 4 == 2:
            return [slice(p[0], p[-1] + 1) if p == list(range(p[0], p[-1] + 1)) else p for p in cols]
        return cols

    # the columns of version spaces: points, or encoded categories and multi-sets, shuffled
    modes = script['modes']
    if kind == 'vs':
        cols, where = [], []
        for j in range(k):
            vals = [x[j] for x in script['pool']]
            if modes[j] == 'categorical':
                new = [[float(a == b) for a in vals] for b in range(1, 8)]
            elif modes[j] == 'multiset':
                new = [[float(a >> b & 1) for a in vals] for b in range(3)]
            else:
                new = [list(map(float, c)) for c in zip(*[(r % 4 + a / 16., r // 4 - a / 32.) for r, a in enumerate(vals)])]
            where.append(list(range(len(cols), len(cols) + len(new))))
            cols += new
        X = np.array(cols).T
        shuffle = np.random.permutation(X.shape[1])
        X, at = X[:, np.argsort(shuffle)], [[int(shuffle[c]) for c in w] for w in where]
    else:
        X = np.array(script['pool'], dtype=float if v % 3 else int)
    Y = np.array(script['y'], dtype=float if v % 2 else int)
    final = Y.min(axis=1)
    perm = list(range(k))
    idx = [10 * r + 3 for r in range(n)]
    fn = {'odd': lambda ys: ys.sum(axis=0) % 2, 'last': lambda ps: ps[-1], 'max': lambda rs: rs.max(axis=0), 'none': None}
    case = (str.upper, str.lower)[v % 2]
    arg = lambda name: fn[name] if name in fn else case(name)

    def proba_name(name):    # 'max' is a documented name of a probability function, not one of the functions above
        return fn['last'] if name == 'last' else case(name)

    def vs_info(perm):
        info = dict(partition=[at[j] for j in perm], mode=[case(modes[j]) for j in perm])
        if len(set(modes)) == 1 and v % 3 == 0:
            info['mode'] = modes[0]
        if modes == ['numerical'] * k and v % 3 == 1:
            info['mode'] = ['numerical', 'persist', 'positive'][:k]
        return info

    if kind == 'stub':
        learner = SubspaceLearner(Stub(), partition=blocks(script['part']), label_function=arg(script['label']),
                                  probability_function=proba_name(script['proba']), ranking_function=arg(script['rank']))
    elif kind == 'vs':
        learner = al.SubspatialVersionSpace(label_function=case(script['label']), loss=arg(script['rank']), warmup=10, thin=2,
                                            decompose=v % 2 == 0, rounding=v % 5 > 0, **vs_info(perm))
    else:
        learner = al.SubspatialSimpleMargin(partition=blocks(script['part']), label_function=arg(script['label']), C=100.)
    cur = blocks(script['part']) or [slice(None)]
    data, fitted, steps = PartitionedDataset(X, index=np.array(idx), copy=True), False, []

    def own(b):
        res = []
        for j, c in enumerate(cur):
            m = al.SimpleMargin(C=100.)
            m.fit(X[b][:, c], Y[b, j])
            res.append([num(a, 1000000) for a in m.clf.decision_function(X[:, c])])
        return res

    def trainable(b):
        if kind != 'margin':
            return bool(b)
        return all(len(set(Y[b, j].tolist())) == 2 for j in range(len(cur)))

    def observe(s, b):
        Z = X.copy()
        s['pred'] = [int(a) for a in learner.predict(Z)]
        s['ranks'] = [num(a, ONE if kind != 'margin' else 1000000) for a in learner.rank(Z)]
        s['preds'] = [[int(a) for a in r] for r in learner.predict_all(Z)]
        if kind != 'margin':
            s['probas'] = [num(a) for a in learner.predict_proba(Z)]
            s['pprobas'] = [[int(8 * a) if 8 * a == int(8 * a) else -1 for a in r] for r in learner.predict_proba_all(Z)]
        if kind == 'stub':
            s['pranks'] = [[int(a) for a in r] for r in learner.rank_all(Z)]
        if kind == 'margin':
            s['own'] = own(b)

    with contextlib.redirect_stdout(io.StringIO()), np.errstate(all='ignore'):
        for op in script['ops']:
            s = dict(op=op['op'], b=[], part=op['part'], perm=[], pred=[], probas=[], ranks=[], preds=[], pprobas=[], pranks=[], own=[], r=-1, u=[], sub=op['sub'])
            name = op['op']
            b = [r - 1 for r in op['b']]
            partial = Y[:, perm] if kind == 'vs' else Y[:, :len(cur)]
            if name == 'label':
                new = [r for r in b if idx[r] in set(data.unlabeled.index.tolist())]
                if new:
                    data.move_to_labeled(LabeledSet(final[new], partial=partial[new], index=[idx[r] for r in new]))
                b = [idx.index(int(a)) for a in data.labeled.index]
                if trainable(b):
                    learner.fit_data(data)
                    s['b'], fitted = [r + 1 for r in b], True
                    observe(s, b)
            elif name == 'fit' and trainable(b):
                learner.fit(X[b].copy(), partial[b].copy())
                s['b'], fitted = [r + 1 for r in b], True
                observe(s, b)
            elif name == 'refactor':
                fitted = False
                if kind == 'vs':
                    perm = [perm[j - 1] for j in op['modes']]
                    learner.set_factorization_structure(**vs_info(perm))
                    data = PartitionedDataset(X, index=np.array(idx), copy=True)
                else:
                    cur = blocks(op['part'])
                    learner.set_factorization_structure(**({} if cur is None and v % 2 else dict(partition=cur)))
                    cur = cur or [slice(None)]
                s['perm'] = [j + 1 for j in perm]
            elif name == 'clear':
                learner.clear()
                data, fitted = PartitionedDataset(X, index=np.array(idx), copy=True), False
            elif name == 'mismatch':
                try:
                    al.SubspatialVersionSpace(partition=[at[j] for j in perm], mode=['numerical'] * (k + 1))
                    s['r'] = 0
                except ValueError:
                    s['r'] = 1
            elif name == 'query':
                u = [idx.index(int(a)) for a in data.unlabeled.index]
                sure = kind != 'vs' or 'multiset' not in modes
                if not fitted or not u or not sure:
                    continue
                point = learner.next_points_to_label(data, op['sub'] or None)
                s['ranks'] = [num(a, 1000000) for a in learner.rank(X.copy())]
                s['u'], s['r'] = [r + 1 for r in u], idx.index(int(np.ravel(point.index)[0])) + 1
            steps.append(s)
    return dict(kind=kind, k=k, pool=script['pool'], y=script['y'], modes=modes, part=script['part'], label=script['label'], proba=script['proba'],
                rank=script['rank'], steps=steps)
