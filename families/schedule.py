"""Trainings in a row: P40 (spec/Schedule.tla)."""
PROPS = ['P40']
TRACE = 'ScheduleTrace'
SCRIPT_TIMEOUT = 60


def generate(ctx):
    q = ctx.quick
    for k, p, m in [(1, 3, 4), (2, 1, 1)] if q else [(1, 4, 5), (1, 0, 3), (2, 2, 2)]:
        ctx.model('ScheduleMC', 'INIT Init\nNEXT Next\nCONSTANTS K = {} P = {} MaxIt = {} Depth = 1\nINVARIANT Ramp Shrinks Forgets Pruned Limits\nCHECK_DEADLOCK FALSE\n'.format(k, p, m))
    out = ctx.model('ScheduleMC', 'INIT SimInit\nNEXT SimNext\nCONSTANTS K = 1 P = 1 MaxIt = 1 Depth = {}\nINVARIANT SimExport\n'.format(5 if q else 8),
                    simulate=(200 if q else 3000, 2)).printed('SCRIPT')
    res = [dict(s, variant=j + 31 * ctx.seed) for j, s in enumerate(out)]

    def kept(s):      # a model which loses all subspaces cannot be trained any more
        if s['kind'] == 'simple':
            return True
        for o in s['ops']:
            w = o['W'][0]
            w[:] = w if any(w[:-1]) and w[-1] < 3 else [1] + w[1:-1] + [0]
        return True
    return [s for s in res if kept(s)]


def nontrivial(script, trace):
    return len(trace['steps']) > 1


def execute(script):
    return dict(script, steps=(sampler if script['kind'] == 'sampler' else simple)(script))


def sampler(script):
    import numpy as np
    from aideme.active_learning.factorization.active_learning import FLMUncertaintySampler
    from aideme.explore import LabeledSet, PartitionedDataset
    v, d, k = (script[a] for a in ('variant', 'd', 'k'))
    ln3 = np.log(3)
    X = np.array(script['X'], dtype=float)
    # labeled points are at the origin, where weights do not matter
    data = PartitionedDataset(np.vstack([np.zeros((20, d)), X]))
    ints = lambda W: [[int(round(float(z) / ln3)) if abs(z / ln3 - round(z / ln3)) < 1e-6 else 99 for z in r] for r in W]
    pen = script['pen'] / 8
    learner = FLMUncertaintySampler(penalty=pen, num_subspaces=k, prune=script['prune'] == 1, penalty_iter=script['iters'], log=script['log'] == 1,
                                    one_hot_groups=[[c - 1 for c in s] for s in script['groups']] or None)
    now, starts = {}, []

    class Result:
        pass

    class Recorder:
        def minimize(self, x0, func, grad):
            x0 = np.array(x0)
            starts.append(x0.copy())
            W = np.array(now['W'], dtype=float)[:len(x0)] * ln3
            zero, probe = np.zeros(x0.shape), np.zeros(x0.shape)
            probe[0, :2] = 3, 4
            now['value'] = float(func(probe) - func(zero))
            res = Result()
            res.x, res.fun = W, float(func(W))
            return res
    learner.clf.optimizer = Recorder()
    steps, seen = [], []
    for j, o in enumerate(script['ops']):
        np.random.seed(1000 * v + j)
        if o['op'] == 'clear':
            learner.clear()
            steps.append(dict(op='clear'))
            continue
        if len(seen) < 20:
            data.move_to_labeled(LabeledSet([float(o['y'])], index=[len(seen)]))
            seen.append(1)
        now['W'] = o['W']
        del starts[:]
        learner.fit_data(data)
        rows = len(starts[0])
        share = now['value'] / pen if pen else now['value']
        if pen and script['log'] and script['iters']:
            unit = 7. if not script['groups'] else sum(np.sqrt(sum([9, 16, 0][c - 1] for c in s)) for s in script['groups'])
            share = (np.exp(share / (unit + 5)) - 1) / (np.e - 1) * (unit + 5)
        steps.append(dict(op='fit', start=ints(starts[0]), random=int(len(starts) == 1 and np.std(starts[0]) > 0 and all(a == 99 for r in ints(starts[0]) for a in r)),
                          strength=int(round(2520 * share)), W=o['W'][:rows], w=ints(learner.clf.weight_matrix), proba=[int(round(1e5 * float(p))) for p in learner.predict_proba(X)]))
    return steps


def simple(script):
    import warnings
    import numpy as np
    from aideme.active_learning.factorization.active_learning import SimplifiedSwapLearner
    from aideme.active_learning.factorization.linear import LinearFactorizationLearner
    from aideme.explore import LabeledSet, PartitionedDataset
    warnings.filterwarnings('ignore')
    v = script['variant']
    rng = np.random.RandomState(v)
    X = rng.normal(size=(12, 2))
    y = (X[:, 0] + .3 * X[:, 1] > 0).astype(float)
    y[np.argmax(X[:, 0])], y[np.argmin(X[:, 0])] = 1., 0.
    order = [int(np.argmax(X[:, 0])), int(np.argmin(X[:, 0]))]
    order += [e for e in range(12) if e not in order]
    learner = SimplifiedSwapLearner(swap_iter=script['swap_iter'], l1_penalty=script['l1'] / 100, l2_sqrt_penalty=script['l2'] / 100, train_sample_size=script['sample'],
                                    num_subspaces=script['k'], retries=script['retries'], prune=script['prune'] == 1, prune_threshold=script['threshold'] / 100,
                                    adapt_max_iter=script['adapt'] == 1, refine_min_iter=script['min'], refine_max_iter=script['max'],
                                    refine_every=script['every'], refine_increment=script['inc'], refine_exp=script['exp'] == 1, refine_step_size=script['step'] * .05 or None,
                                    use_vs=False, use_exp_decay=script['decay'] == 1, use_fista=script['fista'] == 1, cars=script['cars'] == 1,
                                    full_fact=script['fact'] == 1, fact_max_iter=script['fmax'], fact_step_size=script['fstep'] * 1e-4, fact_penalty=script['fpen'] / 1000,
                                    one_hot_groups=[[c - 1 for c in s] for s in script['groups']] or None)
    learner.set_user_factorization([[0], [1], [0], [1]])    # never fits two attributes
    calls, real = [], LinearFactorizationLearner.fit

    def sizes(optimizer):
        """lengths of the steps along a slope, in runs of equal ones; only the first one for accelerated methods"""
        seen = []
        res = optimizer.minimize(np.zeros((1, 3)), lambda x: 0., lambda x: (seen.append(float(x[0, 2])), np.array([[0., 0., 1.]]))[1])
        seen = (seen if len(seen) > 1 else seen[:1])[:res.it] + ([float(res.x[0, 2])] if type(optimizer).__name__ == 'Adam' or res.it == 1 else [])
        steps = [int(round(1e5 * (b - a))) for a, b in zip(seen[1:], seen)]
        if type(optimizer).__name__ != 'Adam':
            return [[1, steps[0]]]
        runs = []
        for a in steps:
            if runs and runs[-1][1] == a:
                runs[-1][0] += 1
            else:
                runs.append([1, a])
        return runs
    least = lambda model: [[int(round(1e5 * float(p))), int(np.linalg.norm(w) > 1e-8)] for p, w in zip(model.partial_proba(X).min(axis=0), model.weights)]

    def fit(self, Z, z, factorization, retries=1, x0=None):
        runs = sizes(self.optimizer)
        res = real(self, Z, z, factorization, retries=retries, x0=x0)
        calls.append(dict(rows=int(factorization) if isinstance(factorization, int) else len(factorization), retries=int(retries), warm=int(x0 is not None), limit=int(res.it), sizes=runs,
                          least=least(self), strength=0 if self.penalty_term is None else int(round(10000 * self.penalty_term.loss(np.array([[3., 4.]]))))))
        return res
    data = PartitionedDataset(X)
    steps, at = [], 0
    LinearFactorizationLearner.fit = fit
    try:
        for j, o in enumerate(script['ops']):
            np.random.seed(1000 * v + j)
            if o['op'] == 'clear':
                learner.clear()
                steps.append(dict(op='clear'))
                continue
            more = order[at:at + (2 if at == 0 else j % 2)]
            at += len(more)
            if more:
                data.move_to_labeled(LabeledSet(y[more], index=more))
            del calls[:]
            learner.fit_data(data)
            model = learner.linear_model
            steps.append(dict(op='fit', calls=list(calls), left=[] if model is None else least(model),
                              strength=0 if model is None else int(round(10000 * model.penalty_term.loss(np.array([[3., 4.]]))))))
            if model is not None and not model.num_subspaces:    # nothing can be trained any more
                break
    finally:
        LinearFactorizationLearner.fit = real
    return steps
