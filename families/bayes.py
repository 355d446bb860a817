"""Bayesian logistic regression: P39 (spec/Bayes.tla)."""
PROPS = ['P39']
TRACE = 'BayesTrace'
SCRIPT_TIMEOUT = 40


def generate(ctx):
    q = ctx.quick
    for big in [1] if q else [1, 2]:
        ctx.model('BayesMC', 'INIT Init\nNEXT Next\nCONSTANTS Big = {} Depth = 1\nINVARIANT VarianceIsInverse Stationary Opposite Moderated\nCHECK_DEADLOCK FALSE\n'.format(big))
    out = ctx.model('BayesMC', 'INIT SimInit\nNEXT SimNext\nCONSTANTS Big = 1 Depth = {}\nINVARIANT SimExport\n'.format(2 if q else 3),
                    simulate=(300 if q else 5000, 2)).printed('SCRIPT')
    return [dict(s, variant=j + 23 * ctx.seed) for j, s in enumerate(out)]


def nontrivial(script, trace):
    return script['d'] > 1 or script['kind'] == 'prior'


def execute(script):
    import sys
    import types
    import warnings
    import numpy as np
    from scipy.stats import norm
    try:
        import pystan
    except ImportError:     # an optional sampler, which is not used here
        stub = types.ModuleType('pystan')
        stub.StanModel = object
        sys.modules['pystan'] = stub
    warnings.filterwarnings('ignore')
    from aideme.active_learning.version_space.bayesian import BayesianKernelVersionSpace, BayesianLinearVersionSpace
    v, icpt = script['variant'], script['icpt']
    steps = []

    def arguments(learner, Z):
        return [int(round(float(np.clip(1000 * z, -10 ** 5, 10 ** 5)))) if z == z else 10 ** 5 for z in norm.ppf(np.ravel(learner.predict_proba(Z)))]
    shared = None
    for f, fit in enumerate(script['fits']):
        rng = np.random.RandomState(v + f)
        if script['kind'] == 'exact':
            Z = np.array(fit['Z'], dtype=float)
            X = np.vstack([np.tile(z, (sum(q), 1)) for z, q in zip(Z, fit['qs'])])[:, icpt:]
            y = np.concatenate([[1.] * q[0] + [0.] * q[1] for q in fit['qs']])
            order = rng.permutation(len(X))
            X, y = X[order], y[order]
            at = (np.array(fit['cs'], dtype=float) @ Z)[:, icpt:]
            if shared is None:
                shared = BayesianLinearVersionSpace(add_intercept=icpt == 1, prior='improper', prior_std=[1., 3.][v % 2], tol=1e-8)
            s = dict(op='exact', cs=fit['cs'], qs=fit['qs'])
        elif script['kind'] == 'prior':
            a, b, z = fit['a'], fit['b'], float(fit['z'] * fit['scale'])
            X, y, at = np.full((a + b, 1), z), rng.permutation([1.] * a + [0.] * b), z * np.array(fit['cs'], dtype=float).reshape(-1, 1)
            if fit['neg'] == 1:
                y = 1 - y
            std = float(np.sqrt(4 * np.log(3) / (a - 3 * b)) / abs(z))
            shared = BayesianLinearVersionSpace(add_intercept=False, prior='gaussian', prior_std=std, tol=1e-8)
            kernel = BayesianKernelVersionSpace(sampler='kernel-laplace', kernel='linear', prior_std=std, tol=1e-8)
            kernel.fit(X, y)
            s = dict(op='prior', kernel=arguments(kernel, at), **{k: fit[k] for k in ('a', 'b', 'neg', 'scale', 'cs')})
        else:
            unit = np.array([(3, 4), (-3, 4), (4, -3), (0, 5), (5, 0), (-4, -3), (3, -4), (4, 3)]) / 5
            X, y, at = unit[[k - 1 for k in fit['X']]], np.array(fit['y'], dtype=float), unit[[k - 1 for k in fit['at']]]
            if shared is None:
                std = fit['std']
                make = lambda: BayesianLinearVersionSpace(add_intercept=False, prior='gaussian', prior_std=float(std), tol=1e-8)
                shared, flipped, longer = make(), make(), make()
                withicpt = BayesianLinearVersionSpace(add_intercept=True, prior='gaussian', prior_std=float(std), tol=1e-8)
                kernel = BayesianKernelVersionSpace(sampler='kernel-laplace', kernel='linear', prior_std=float(std), tol=1e-8)
                # the options of the kernel and of the prior, in a learner of kernel values and in one of weights
                gamma, coef0, scale = [.5, 1., 2.][v % 3], [0., 1., 2.][v // 3 % 3], float(std)
                opts = [dict(kernel='poly', gamma=gamma, degree=3, coef0=coef0), dict(kernel='poly', gamma=gamma, degree=2, coef0=coef0), dict(kernel='rbf', gamma=gamma), dict(kernel='linear')][v // 9 % 4]
                values = {'poly': lambda A, B: (gamma * A @ B.T + coef0) ** opts['degree'], 'linear': lambda A, B: A @ B.T,
                          'rbf': lambda A, B: np.exp(-gamma * np.square(A[:, None] - B[None]).sum(axis=2))}[opts['kernel']]
                common = dict(prior='gaussian', prior_std=scale, add_intercept=v % 2 == 1, tol=1e-8)
                byvalue, byweight = BayesianKernelVersionSpace(sampler='laplace', **common, **opts), BayesianLinearVersionSpace(**common)
                squares = BayesianKernelVersionSpace(sampler='kernel-laplace', kernel='poly', gamma=gamma, degree=2, coef0=coef0, prior_std=scale, tol=1e-8)
                products = BayesianLinearVersionSpace(add_intercept=False, prior='gaussian', prior_std=scale, tol=1e-8)
                expand = lambda A: np.c_[gamma * A ** 2, 2 ** .5 * gamma * A[:, :1] * A[:, 1:], (2 * gamma * coef0) ** .5 * A, np.full(len(A), coef0)]
            s = dict(op='related')
        if fit['clear'] == 1:
            shared.clear()
        kept = X.copy(), y.copy(), at.copy()
        shared.fit(X, y)
        if script['kind'] == 'related':
            kernel.fit(X, y)
            flipped.fit(X, 1 - y)
            withicpt.fit(X, y)
            byvalue.fit(X, y)
            byweight.fit(values(X, X), y)
            squares.fit(X, y)
            products.fit(expand(X), y)
            s.update(values=[arguments(byvalue, at), arguments(byweight, values(at, X))], squares=[arguments(squares, at), arguments(products, expand(at))],
                     squares_pred=[int(z) for z in np.ravel(squares.predict(at))])
            longer.fit(np.c_[np.ones(len(X)), X], y)
            s.update(icpt=[arguments(withicpt, at), arguments(longer, np.c_[np.ones(len(at)), at])], kernel=arguments(kernel, at), flip=arguments(flipped, at), mirror=arguments(shared, -at), origin=arguments(shared, np.zeros((1, 2)))[0])
        s.update(z=arguments(shared, at), pred=[int(z) for z in np.ravel(shared.predict(at))], rank=[int(round(1e6 * z)) for z in np.ravel(shared.rank(at))],
                 same=int(all(np.array_equal(a, b) for a, b in zip((X, y, at), kept))))
        steps.append(s)
    return dict(script, steps=steps)
