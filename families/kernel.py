"""Kernels and feature maps: P38 (spec/Kernel.tla)."""
PROPS = ['P38']
TRACE = 'KernelTrace'
SCRIPT_TIMEOUT = 30


def generate(ctx):
    q = ctx.quick
    for cols, big in ([(1, 3), (2, 1)] if q else [(1, 5), (2, 2), (3, 1), (4, 1)]):
        ctx.model('KernelMC', 'INIT Init\nNEXT Next\nCONSTANTS Cols = {} Big = {} Depth = 1\nINVARIANT Symmetric CauchySchwarz Diagonal Expansion\nCHECK_DEADLOCK FALSE\n'.format(cols, big))
    out = ctx.model('KernelMC', 'INIT SimInit\nNEXT SimNext\nCONSTANTS Cols = 1 Big = 1 Depth = {}\nINVARIANT SimExport\n'.format(6 if q else 9),
                    simulate=(600 if q else 10000, 2)).printed('SCRIPT')
    return [dict(s, variant=j + 19 * ctx.seed) for j, s in enumerate(out)]


def nontrivial(script, trace):
    return any(s['op'] in ('transform', 'fit_transform') for s in trace['steps'])


def execute(script):
    import warnings
    import numpy as np
    from aideme.active_learning.factorization.interaction import add_interaction_terms
    from aideme.active_learning.kernel import FactorizedKernelTransform, IncrementedDiagonalKernel, Kernel, KernelTransformer
    warnings.filterwarnings('ignore')
    v, k, kind, jitter = script['variant'], script['k'], script['kind'], script['jitter'] / 4
    np.random.seed(v)
    scale = dict(linear=4, poly=12 ** k['degree'], rbf=32768)[k['kind']]
    name = dict(linear=['linear', 'Linear'], poly=['poly', 'POLY'], rbf=['rbf', 'gaussian', 'Gaussian'])[k['kind']]
    name = name[v % len(name)]
    if kind in ('nystroem', 'classifier'):
        k['c'] = abs(k['c'])    # positive semi-definite kernels only
    params = dict(degree=k['degree'], gamma=None, coef0=k['c'] / 2)
    if k['gamma']:
        params['gamma'] = k['gamma'] / 4 if k['kind'] == 'poly' else k['gamma'] * np.log(2)
    kernel = Kernel.get(name, **params)
    if jitter:
        kernel = IncrementedDiagonalKernel(kernel, jitter)
    size = max(len(op['X']) for op in script['ops']) + v % 3 if kind == 'nystroem' else None
    transformer = KernelTransformer.get(name, jitter=jitter, nystroem_components=size, **params)
    subs = [[c - 1 for c in s] for s in script['subs']]
    if kind == 'factorized':
        transformer = FactorizedKernelTransform(transformer, subs)
    unit = lambda m: [[int(round(float(z) * scale)) if abs(z * scale) < 2e9 else 2 ** 31 - 1 for z in r] for r in m]
    blocks = lambda m: [unit(m[:, :, j]) for j in range(m.shape[2])] if kind == 'factorized' else [unit(m)]
    if kind == 'learner':
        return dict(script, steps=learner(script, np, name, dict(params, jitter=jitter), subs, unit))
    if kind == 'classifier':
        return classifier(script, np, name, params, v % 3 > 0, unit)
    train, steps = None, []
    for j, op in enumerate(script['ops']):
        X, Y = np.array(op['X'], dtype=float), np.array(op['Y'], dtype=float)
        keep, what = (X.copy(), Y.copy()), op['op']
        s = dict(op=what, X=op['X'], Y=op['Y'], m=[], d=[], ms=[], size=-1, same=1, squares=op['squares'])
        if what == 'transform' and train is None:
            continue
        steps.append(s)
        if what == 'compute':
            s['m'] = unit((kernel if v % 2 else kernel.compute)(X, Y))
        elif what == 'alone':
            s['m'] = unit((kernel if v % 2 else kernel.compute)(X))
        elif what == 'diagonal':
            s['d'] = unit([kernel.diagonal(X)])[0]
        elif what == 'interact':
            s['m'] = [[int(round(float(z))) for z in r] for r in add_interaction_terms(X, self_interacting=op['squares'] == 1)]
        elif what == 'clone':
            other = transformer.clone()
            other.fit(Y)
        elif what == 'fit':
            transformer.fit(X)
            train = X.copy()
        else:
            if what == 'fit_transform':
                m = transformer.fit_transform(X)
                train = X.copy()
            else:
                m = transformer.transform(X)
            if kind == 'nystroem':
                m = m.dot(transformer.transform(train).T)
            s['ms'] = blocks(np.asarray(m))
        if train is not None and kind != 'nystroem' and what in ('fit', 'transform', 'clone', 'fit_transform'):
            s['size'] = int(transformer.n_components)
        s['same'] = int(np.array_equal(X, keep[0]) and np.array_equal(Y, keep[1]))
    return dict(script, steps=steps)


def learner(script, np, name, params, subs, unit):
    """the features given to the linear model of a kernel factorization learner"""
    from aideme.active_learning.factorization.kernel import KernelFactorizationLearner
    from aideme.active_learning.factorization.linear import LinearFactorizationLearner as Linear
    from aideme.active_learning.factorization.optimization import Adam
    seen, steps, trained = [], [], False
    real = {a: getattr(Linear, a) for a in ('fit', 'predict', 'predict_proba', 'partial_proba')}

    def recording(name):
        def method(self, X, *args, **kw):
            seen.append(np.array(X))
            return real[name](self, X, *args, **kw)
        return method
    clf = KernelFactorizationLearner(Adam(max_iter=1, step_size=1e-9), kernel=name, **params)
    blocks = lambda m: [unit(m[:, :, j]) for j in range(m.shape[2])] if m.ndim == 3 else [unit(m)]
    for name in real:
        setattr(Linear, name, recording(name))
    try:
        for j, op in enumerate(script['ops']):
            X = np.array(op['X'], dtype=float)
            keep = X.copy()
            what = dict(fit='fit_transform', compute='transform').get(op['op'], op['op'])
            if what not in ('fit_transform', 'transform') or (what == 'transform' and not trained):
                continue
            s = dict(op=what, X=op['X'], Y=op['Y'], m=[], d=[], ms=[], size=-1, same=1, squares=op['squares'])
            steps.append(s)
            del seen[:]
            if what == 'fit_transform':
                clf.fit(X, np.arange(len(X)) % 2 * 1., [list(a) for a in subs] if op['squares'] == 2 else 2,
                        x0=np.zeros((len(subs) if op['squares'] == 2 else 2, len(X) + 1)))
                trained = True
            else:
                getattr(clf, ['predict', 'predict_proba', 'partial_proba'][(script['variant'] + j) % 3])(X)
            s['ms'] = blocks(seen[0])
            s['same'] = int(np.array_equal(X, keep))
    finally:
        for name in real:
            setattr(Linear, name, real[name])
    return steps


def classifier(script, np, name, params, decompose, unit):
    """the features given to the linear model of a kernel version space: those of the kernel, or vectors with these products"""
    from aideme.active_learning.version_space.kernel import KernelBayesianLogisticRegression
    seen, steps, train = [], [], None

    class Recorder:
        clear = lambda self: None

        def fit(self, X, y):
            seen.append(np.array(X))

        def predict(self, X):
            seen.append(np.array(X))
            return np.zeros(len(X))
        predict_proba = predict

        def _likelihood(self, X):
            return self.predict(X).reshape(1, -1)
    clf = KernelBayesianLogisticRegression(Recorder(), decompose=decompose, jitter=.25, kernel=name, **params)
    for j, op in enumerate(script['ops']):
        X = np.array(op['X'], dtype=float)
        keep = X.copy()
        what = dict(fit='fit_transform', compute='transform', diagonal='clear').get(op['op'], op['op'])
        if what not in ('fit_transform', 'transform', 'clear') or (what == 'transform' and train is None):
            continue
        if what == 'clear':
            clf.clear()
            train = None
            continue
        s = dict(op=what, X=op['X'], Y=op['Y'], m=[], d=[], ms=[], size=-1, same=1, squares=op['squares'])
        steps.append(s)
        if what == 'fit_transform':
            clf.fit(X, np.arange(len(X)) % 2 * 1.)
            train = seen[-1]
        else:
            getattr(clf, ['predict', 'predict_proba', 'predict_all'][(script['variant'] + j) % 3])(X)
        F = seen[-1]
        s['ms'] = [unit(F.dot(train.T) if decompose else F)]
        s['d'] = unit([(F ** 2).sum(axis=1)])[0] if decompose else []
        s['same'] = int(np.array_equal(X, keep))
    return dict(script, steps=steps, jitter=1 if decompose else 0)
