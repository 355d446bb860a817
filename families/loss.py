"""Training loss of factorized models: P37 (spec/Loss.tla)."""
PROPS = ['P37']
TRACE = 'LossTrace'
SCRIPT_TIMEOUT = 30


def generate(ctx):
    q = ctx.quick
    for k, big in ([(1, 4), (2, 2)] if q else [(1, 5), (2, 3), (3, 2)]):
        ctx.model('LossMC', 'INIT Init\nNEXT Next\nCONSTANTS K = {} Big = {} Depth = 1\nINVARIANT Probability Conjunctive Signs\nPROPERTY Grows Derivative\nCHECK_DEADLOCK FALSE\n'.format(k, big))
    out = ctx.model('LossMC', 'INIT SimInit\nNEXT SimNext\nCONSTANTS K = 1 Big = 1 Depth = {}\nINVARIANT SimExport\n'.format(3 if q else 4),
                    simulate=(500 if q else 8000, 2)).printed('SCRIPT')
    return [dict(s, variant=j + 17 * ctx.seed) for j, s in enumerate(out)]


def nontrivial(script, trace):
    return script['k'] > 1 or bool(script['mask'])


def execute(script):
    import numpy as np
    from aideme.active_learning.factorization.kernel import KernelFactorizationLearner
    from aideme.active_learning.factorization.linear import LinearFactorizationLearner
    from aideme.active_learning.factorization.optimization import ProximalGradientDescent
    from aideme.active_learning.factorization.penalty import PenaltyTerm
    v, n, k, d, bias, pen = (script[a] for a in ('variant', 'n', 'k', 'd', 'bias', 'pen'))
    ln3 = np.log(3)
    X, y = np.array(script['X'], dtype=float), np.array(script['y'], dtype=float)
    kept = X.copy(), y.copy()
    mask = np.ones((k, d + bias), dtype=bool)
    if script['mask']:
        mask[:, :d] = [[c + 1 in m for c in range(d)] for m in script['mask']]
    full = lambda W: np.array(W, dtype=float)[:, :d + bias] * ln3
    ints = lambda W: [[int(round(float(z) / ln3)) if abs(z / ln3 - round(z / ln3)) < 1e-6 else 99 for z in r] + [0] * (1 - bias) for r in W]
    steps, seen = [], []

    class Penalty(PenaltyTerm):
        def loss(self, x):
            seen.append([[int(round(float(z) / ln3)) for z in r] for r in x])
            return pen * np.log(2) / n

        def grad(self, x):
            seen.append([[int(round(float(z) / ln3)) for z in r] for r in x])
            return np.array(script['G'], dtype=float)

        def proximal(self, x, eta):
            taken.append([[int(round(float(z) / ln3)) for z in r] for r in x])
            return np.zeros(x.shape)

        def is_subgradient(self, *args):
            return False
    taken = []

    class Result:
        pass

    class Recorder(ProximalGradientDescent if script['prox'] else object):
        runs = 0

        def minimize(self, x0, func, grad):
            W0 = starts[Recorder.runs]
            x0 = np.array(x0)
            at = np.zeros((k, d + bias))
            at[mask] = x0.ravel()
            steps.append(dict(op='start', W=W0, x0=ints(at)))
            if script['prox']:
                res = super().minimize(x0, lambda x: 0., np.zeros_like)
                steps.append(dict(op='prox', W=W0, arg=taken[-1], x=ints(res.x)))
            for W in script['W']:
                x = full(W)[mask]
                x = x.reshape(x0.shape)
                del seen[:]
                # the gradients of the batches of an epoch, the last one being shorter, add up to that of all examples
                value = func(x.copy())
                slope = sum(min(size, n - b) / n * np.array(grad(x.copy())) for b in range(0, n, size))
                grads = np.zeros((k, d + 1))
                flat = grads[:, :d + bias]
                flat[mask] = slope.ravel()
                steps.append(dict(op='eval', subs=subs, W=W, lik=int(round(1e6 * float(np.exp(-n * value)))), grad=[[int(round(1e5 * z)) if abs(z) < 21000 else 2 ** 30 for z in r] for r in grads], pen=list(seen)))
            Recorder.runs += 1
            res = Result()
            res.x = full(script['W'][-1])[mask].reshape(x0.shape)
            res.fun = float(func(res.x))
            return res
    penalty = Penalty(1) if pen else None
    size = n if script['prox'] or v % 3 else 1 + v // 3 % n
    if script['part']:
        return dict(script, steps=blocks(script, X, y, ints))
    optimizer = Recorder(step_size=1., max_iter=1, gtol=0) if script['prox'] else Recorder()
    if size < n:
        optimizer.batch_size = size
    if script['kernel']:
        learner = KernelFactorizationLearner(optimizer, penalty, add_bias=bias == 1, kernel='linear', jitter=[0, 1e-12][v % 2])
    else:
        learner = LinearFactorizationLearner(optimizer, penalty, add_bias=bias == 1)
    for run in range(script['runs']):
        subs = [] if run == 1 and v % 2 else script['subs']     # kernels of other columns than before
        factorization = [[c - 1 for c in (s[::-1] if (v + j) % 3 else s)] for j, s in enumerate(script['mask'] or subs)] or k
        before = Recorder.runs
        retries = 1 + (v + run) % 2
        starts = {Recorder.runs + j: script['W'][(run + j) % len(script['W'])] for j in range(retries)}
        x0 = np.array([full(starts[Recorder.runs + j]) for j in range(retries)])
        if retries == 1 and v % 3:
            x0 = x0[0]
        learner.fit(X, y, factorization, retries=retries, x0=x0)
        at = script['X'] + [[(v + 2 * c + r) % 5 - 2 for c in range(len(script['X'][0]))] for r in range(3)]
        Z = np.array(at, dtype=float)
        lin = learner.fact_linear if script['kernel'] else learner
        W = np.array(lin.weights)
        b = np.array(lin.bias).reshape(-1, 1)
        matrix = np.array(learner.weight_matrix)
        w = np.hstack([W, b]) if bias else W
        assert np.array_equal(matrix, w)
        steps.append(dict(op='model', subs=subs, starts=Recorder.runs - before, retries=retries, W=script['W'][-1], w=ints(w), subspaces=int(learner.num_subspaces), at=at, proba=[int(round(1e6 * z)) for z in np.ravel(learner.predict_proba(Z))],
                          pred=[int(z) for z in np.ravel(learner.predict(Z))], partial=[[int(round(1e6 * z)) for z in r] for r in np.asarray(learner.partial_proba(Z))],
                          same=int(np.array_equal(X, kept[0]) and np.array_equal(y, kept[1]))))
    return dict(script, steps=steps)


def blocks(script, X, y, ints):
    """The learner of partitions, with weights in one vector: each block's bias, then its attributes in the given order."""
    import numpy as np
    from scipy.optimize import OptimizeResult
    from aideme.active_learning.factorization.partitioning.linear import FactorizedLinearLearner
    v, n, k, d = (script[a] for a in ('variant', 'n', 'k', 'd'))
    ln3 = np.log(3)
    kept = X.copy(), y.copy()
    blocks_ = [[c - 1 for c in (s[::-1] if (v + j) % 3 else s)] for j, s in enumerate(script['mask'])]
    flat = lambda W: np.concatenate([[W[j][d]] + [W[j][c] for c in b] for j, b in enumerate(blocks_)]).astype(float)
    steps = []

    def unflat(w):
        out, i = np.zeros((k, d + 1)), 0
        for j, b in enumerate(blocks_):
            out[j, d] = w[i]
            out[j, b] = w[i + 1:i + 1 + len(b)]
            i += 1 + len(b)
        return out

    def method(fun, x0, args=(), jac=None, **options):
        steps.append(dict(op='start', W=start, x0=ints(unflat(np.array(x0)))))
        for W in script['W']:
            x = flat(W) * ln3
            if (v + len(steps)) % 2:
                value, slope = fun(x.copy()), jac(x.copy())
            else:
                slope, value = jac(x.copy()), fun(x.copy())
            steps.append(dict(op='eval', subs=[], W=W, lik=int(round(1e6 * float(np.exp(-n * value)))), pen=[],
                              grad=[[int(round(1e5 * z)) if abs(z) < 21000 else 2 ** 30 for z in r] for r in unflat(np.array(slope))]))
        x = flat(script['W'][-1]) * ln3
        result = OptimizeResult(x=x, fun=float(fun(x)), success=bool(v % 4), message='')
        fun(flat(script['W'][0]) * ln3)     # not the last point tried
        return result
    learner = FactorizedLinearLearner(optimizer=method)
    for run in range(script['runs']):
        start = script['W'][run % len(script['W'])]
        x0 = flat(start) * ln3
        if (v + run) % 3 == 0:
            start, x0 = [[0] * (d + 1)] * k, None
        starts = len(steps)
        if run:
            model, loss = learner.fit_and_loss(X, y, blocks_, x0)
        else:
            model = learner.fit(X, y, blocks_, x0)
        at = script['X'] + [[(v + 2 * c + r) % 5 - 2 for c in range(d)] for r in range(3)]
        Z = np.array(at, dtype=float)
        same = x0 is None or np.array_equal(x0, flat(start) * ln3)
        steps.append(dict(op='model', subs=[], starts=len([s for s in steps[starts:] if s['op'] == 'start']), retries=1, W=script['W'][-1], w=ints(unflat(model.weights)), subspaces=len(model.partition), at=at,
                          proba=[int(round(1e6 * z)) for z in np.ravel(model.predict_proba(Z))], pred=[int(z) for z in np.ravel(model.predict(Z))],
                          partial=[[int(round(1e6 * float(model.partial_proba(z[None, b], j)[0]))) for j, b in enumerate(blocks_)] for z in Z],
                          same=int(same and np.array_equal(X, kept[0]) and np.array_equal(y, kept[1]))))
    return steps
