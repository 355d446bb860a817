"""The swap learner: P23 and the alignment of P24 (spec/Swap.tla)."""
PROPS = ['P23', 'P24']
TRACE = 'SwapTrace'
SCRIPT_TIMEOUT = 60


def generate(ctx):
    q = ctx.quick
    for a, e, r, m in ([(1, 1, 1, 5), (2, 2, 1, 7)] if q else [(1, 1, 1, 6), (2, 2, 1, 9), (1, 1, 2, 6), (3, 1, 2, 8)]):
        ctx.model('SwapMC', 'INIT Init\nNEXT Next\nCONSTANTS SwapIter = {} Every = {} Repeat = {} MaxIt = {} Depth = 1\n'
                  'INVARIANT OneWay OnTime OnlyStable OnlyCompatible\nPROPERTY AtOnce\n'.format(a, e, r, m))
    out = ctx.model('SwapMC', 'INIT SimInit\nNEXT SimNext\nCONSTANTS SwapIter = 1 Every = 1 Repeat = 1 MaxIt = 1 Depth = {}\nINVARIANT SimExport\n'.format(9 if q else 13),
                    simulate=(350 if q else 5000, 2)).printed('SCRIPT')
    return [dict(s, variant=j + 7 * ctx.seed) for j, s in enumerate(out)]


def nontrivial(script, trace):
    return any(len(s['calls']) > 1 and s['op'] == 'fit' for s in trace['steps'])


def execute(script):
    import warnings
    import numpy as np
    from aideme.active_learning.active_learner import ActiveLearner, FactorizedActiveLearner
    from aideme.active_learning.factorization.active_learning import SwapLearner
    from aideme.active_learning.factorization.linear import LinearFactorizationLearner
    from aideme.active_learning.factorization.optimization import GradientDescent
    from aideme.active_learning.factorization.penalty import SparseGroupLassoPenalty
    from aideme.explore.partitioned import PartitionedDataset
    warnings.filterwarnings('ignore')
    v, n = script['variant'], script['n']
    np.random.seed(v)
    X = np.array(script['X'], dtype=float)
    number = {tuple(x): e + 1 for e, x in enumerate(script['X'])}
    ids = lambda Z: [number.get(tuple(int(a) for a in z), 0) for z in np.asarray(Z)]
    ints = lambda a: [int(z) for z in np.ravel(a)]
    calls, others, now = [], [], dict(step=0)

    class Stub(ActiveLearner):
        label, proba, score, name = 0, 100, 300, 'active'

        def clear(self):
            calls.append(dict(who=self.name))

        def fit(self, Z, y):
            calls.append(dict(who=self.name, ids=ids(Z), y=ints(y), part=[]))

        def predict(self, Z):
            return np.array([abs(self.label - script['alpred'][e - 1]) for e in ids(Z)], dtype=float)

        def predict_proba(self, Z):
            return np.array([(self.proba + e) / 1000 for e in ids(Z)])

        def rank(self, Z):
            return np.array([(self.score + e) / 1000 for e in ids(Z)])

    class Factorized(Stub, FactorizedActiveLearner):
        label, proba, score, name = 1, 500, 700, 'fact'
        fit_data = FactorizedActiveLearner.fit_data

        def fit(self, Z, y):
            calls.append(dict(who='fact', ids=ids(Z), y=[], part=[ints(r) for r in np.atleast_2d(y)]))

        def set_factorization_structure(self, **info):
            calls.append(dict(who='structure', part=[sorted(int(a) + 1 for a in s) for s in info['partition']], mode=int(info['mode'] == 'numerical')))

    units = lambda W: [[int(round(a / 20)) if abs(a / 20 - round(a / 20)) < 1e-6 else 99 for a in r] for r in W]
    tens = lambda B: [int(round(a / 10)) if abs(a / 10 - round(a / 10)) < 1e-6 else 99 for a in B]

    real = LinearFactorizationLearner.fit

    def other_fit(self, *args, **kwargs):
        """the models which factorizations are computed with: their optimizer, and their penalty of (3, 4)"""
        seen = []
        res = self.optimizer.minimize(np.zeros((1, 2)), lambda x: 0., lambda x: (seen.append(np.array(x)), np.array([[0., 1.]]))[1])
        step = next((-x[0, 1] for x in seen + [res.x] if x[0, 1] < 0), 0.)
        pen = self.penalty_term.loss(np.array([[3., 4.]])) if self.penalty_term is not None else 0.
        others.append([int(res.it), int(round(1e6 * step)), int(round(1e8 * pen))])
        return real(self, *args, **kwargs)

    class Model(LinearFactorizationLearner):
        """takes the scripted weights"""
        def fit(self, Z, y, factorization, retries=1, x0=None):
            k = factorization if isinstance(factorization, int) else -1
            rows = script['rows'][now['step']][:k]
            W = np.array([[20. * a for a in r['w']] + [10. * r['b']] for r in rows])
            limit = self.optimizer.minimize(np.zeros((1, 2)), lambda x: 0., lambda x: np.ones_like(x)).it
            c = dict(who='swap' if x0 is None else 'refine', ids=ids(Z), y=ints(y), k=k, retries=int(retries), limit=int(limit), x0W=[], x0b=[])
            if x0 is not None:
                z = np.asarray(x0).reshape(-1, n + 1)
                c['x0W'], c['x0b'] = units(z[:, :-1]), tens(z[:, -1])
            mine, self.optimizer = self.optimizer, GradientDescent(gtol=1e12)
            try:
                res = real(self, Z, y, k, x0=W)
            finally:
                self.optimizer = mine
            c['W'], c['b'] = units(self.weights), tens(self.bias)
            calls.append(c)
            return res

        def copy(self):
            res = super().copy()
            res.__class__ = Model
            return res
    mk = lambda m: GradientDescent(gtol=0, max_iter=m)
    penalty = [None, SparseGroupLassoPenalty(1e-9, 1e-9)][v % 2]
    opt = mk(9)
    refine = Model(opt, penalty)
    swap = refine if script['shared'] == 2 else Model(opt if script['shared'] == 1 else mk(11))
    user = [[a - 1 for a in s] for s in script['users'][0]]
    fact = Factorized() if script['fact'] else None
    learner = SwapLearner(Stub(), swap, None if script['shared'] == 2 else refine, num_subspaces=script['k'], retries=script['retries'],
                          max_iter_adapter=(lambda it: 3 + 2 * it) if script['adapter'] else None, swap_iter=script['swap_iter'],
                          train_on_prediction=script['onpred'] == 1, train_sample_size=script['sample'] or None, prune=script['prune'] == 1,
                          prune_threshold=float(1 / (1 + np.exp(-5. - 10 * script['clear']))), fact_model=fact, user_fact=None if script['late'] else user, compute_fact_every=script['every'],
                          fact_repeat=script['repeat'], fact_max_iter=script['fmax'], fact_step_size=script['fstep'] * 1e-6, fact_l1_penalty=script['fl1'] * 1e-8, fact_l2_sqrt_penalty=script['fl2'] * 1e-8)
    if script['late']:
        learner.set_user_factorization(user)
    if v % 5 == 0:    # a model which was trained before
        refine.fit(X, np.array(script['y'], dtype=float), script['k'])
    data = PartitionedDataset(X)
    LinearFactorizationLearner.fit = other_fit
    try:
        steps = run(script, learner, data, swap, refine, calls, others, now, ids, ints, units, tens, X)
    finally:
        LinearFactorizationLearner.fit = real
    if script['direct']:
        from aideme.active_learning.factorization.learn import compute_factorization_and_partial_labels
        from aideme.explore.labeledset import LabeledSet
        model = LinearFactorizationLearner(GradientDescent(gtol=1e12))
        W = np.array([[20. * a for a in r['w']] + [10. * r['b']] for r in script['direct']])
        model.fit(X, np.array(script['y'], dtype=float), len(W), x0=W)
        data = PartitionedDataset(X)
        rows = [e - 1 for e in script['order'][:1 + v % len(X)]]
        data.move_to_labeled(LabeledSet(np.array([script['y'][e] for e in rows], dtype=float), None, rows))
        fact, y = compute_factorization_and_partial_labels(data, model, fista_step_size=1e-6, max_iter=1)
        steps.append(dict(op='parts', user=0, calls=[], fact=[[int(a) + 1 for a in f] for f in fact], lab=ids(data.training_set()[0]), y=[ints(r) for r in np.asarray(y)]))
    return dict(script, steps=steps)


def run(script, learner, data, swap, refine, calls, others, now, ids, ints, units, tens, X):
    import numpy as np
    from aideme.explore.labeledset import LabeledSet
    from aideme.utils import metric_logger
    order, at, steps = script['order'], 0, []
    for j, o in enumerate(script['ops']):
        now['step'] = j
        del calls[:], others[:]
        s = dict(op=o['op'])
        if o['op'] == 'clear':
            learner.clear()
            data.clear()
            at = 0
            s.update(W=[[0]] if swap.weights is not None or (script['prune'] == 0 and refine.weights is not None) else [], b=[])
        else:
            more = order[at:at + max(o['more'], at == 0)]
            at += len(more)
            if more:
                rows = [e - 1 for e in more]
                data.move_to_labeled(LabeledSet(np.array([script['y'][e] for e in rows], dtype=float), np.array([script['part'][e] for e in rows], dtype=float), rows))
            if o['user']:
                learner.set_user_factorization([[a - 1 for a in u] for u in script['users'][o['user'] - 1]])
            s['lab'] = ids(data.training_set()[0])
            metric_logger.flush()
            learner.fit_data(data)
            lm = learner.linear_model
            s.update(W=[] if lm is None else units(lm.weights), b=[] if lm is None else tens(lm.bias))
        s.update(calls=list(calls), others=list(others), user=o['user'] * (o['op'] == 'fit'), linear=int(learner.linear_model is not None), active=int(learner.is_active_learning_phase and not learner.is_factorization_phase),
                 pl=ints(learner.predict(X)), pp=ints(np.round(1000 * learner.predict_proba(X))), pr=ints(np.round(1000 * learner.rank(X))))
        steps.append(s)
    return steps
