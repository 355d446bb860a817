"""Factorizations and factorized linear models: P24, P25, P35 (spec/Factor.tla)."""
PROPS = ['P24', 'P25', 'P35']
TRACE = 'FactorTrace'
SCRIPT_TIMEOUT = 40
KINDS = {'P24': [('"antichain"', 200, 3000), ('"flm"', 300, 5000)], 'P25': [('"search"', 240, 2500)], 'P35': [('"flm"', 500, 8000), ('"clf"', 250, 3000)]}


def generate(ctx):
    q = ctx.quick
    if ctx.prop == 'P25':
        for n, m in ([(3, 3)] if q else [(3, 6), (4, 1)]):
            ctx.model('FactorMC', 'INIT Init\nNEXT Next\nCONSTANTS N = {} MaxLoss = {} Depth = 1 Kinds = {{}}\nINVARIANT NeverWorse LocalOptimum\n'.format(n, m))
    else:
        ctx.model('FactorMC', 'INIT Init\nNEXT Next\nCONSTANTS N = 2 MaxLoss = 1 Depth = 1 Kinds = {}\nINVARIANT NeverWorse LocalOptimum\n')
    out = []
    for kinds, a, b in KINDS[ctx.prop]:
        out += ctx.model('FactorMC', 'INIT SimInit\nNEXT SimNext\nCONSTANTS N = 1 MaxLoss = 0 Depth = {} Kinds = {{{}}}\nINVARIANT SimExport\n'.format(6 if q else 7, kinds),
                         simulate=(a if q else b, 2)).printed('SCRIPT')
    return [dict(s, variant=j + 7 * ctx.seed) for j, s in enumerate(out)]


def nontrivial(script, trace):
    return script['n'] > 1 and (script['kind'] != 'antichain' or len(script['rel']) > 1)


def execute(script):
    import warnings
    import numpy as np
    from aideme.active_learning.factorization import learn
    from aideme.active_learning.factorization.linear import LinearFactorizationLearner
    from aideme.active_learning.factorization.optimization import Adam, GradientDescent
    from aideme.active_learning.factorization.partitioning.learn import BruteForceSelector, GreedySelector
    from aideme.active_learning.factorization.partitioning.linear import FactorizedLinearClassifier
    from aideme.active_learning.factorization.penalty import L1Penalty, SparseGroupLassoPenalty
    warnings.filterwarnings('ignore')
    kind, v, n = script['kind'], script['variant'], script['n']
    rng = np.random.RandomState(v)
    np.random.seed(v)
    steps = []
    one = lambda p: [[int(a) + 1 for a in b] for b in p]
    integer = lambda a: int(round(float(a))) if abs(float(a) - round(float(a))) < 1e-6 and abs(a) < 1e9 else 999999999
    eighths = lambda p: int(round(8 * p)) if abs(8 * p - round(8 * p)) < 1e-9 else -1
    thousand = lambda p: int(round(1024 * p)) if abs(1024 * p - round(1024 * p)) < 1e-7 else -1

    if kind in ('brute', 'greedy'):
        X, y = rng.normal(size=(3, n)), np.array([0., 1., 1.])
        scale = [1., 2. ** -20, 2. ** 12][v % 3]    # of losses; exact

        def table(part):
            h = v
            for b in sorted(sorted(b) for b in part):
                h = (h * 31 + sum((a + 1) ** 3 for a in b) + 17) % 10007
            return h % script['levels'] - script['levels'] // 3

        def weights(part):
            """those of the specification"""
            w = []
            for b in part:
                key = sum((a + 1) ** 2 for a in b)
                w += [5 * key % 13] + [(3 * key + 7 * (a + 1)) % 11 for a in b]
            return np.array(w, dtype=float)

        class Stub:
            def fit_and_loss(self, X_, y_, partition, x0=None):
                part = [list(map(int, b)) for b in partition]
                s = dict(op='eval', part=one(part), loss=table(part), x0=[], r=1)
                if X_ is not X or y_ is not y:
                    s['part'] = []
                if x0 is not None:
                    at = 0
                    for b in part:
                        s['x0'].append([integer(a) for a in x0[at:at + len(b) + 1]])
                        at += len(b) + 1
                steps.append(s)
                return FactorizedLinearClassifier(part, weights(part)), table(part) * scale

            def fit(self, *args, **kw):
                return self.fit_and_loss(*args, **kw)[0]

            def compute_factorization_loss(self, *args, **kw):
                return self.fit_and_loss(*args, **kw)[1]

        limits = dict(max_partitions=script['maxk'] or None, max_dim=script['maxd'] or None)
        selector = BruteForceSelector(**limits) if kind == 'brute' else GreedySelector(warm_start=script['warm'] == 1, **limits)
        try:
            res, r = one(selector(X, y, Stub())), 1
        except ValueError:
            res, r = [], 0
        steps.append(dict(op='ret', part=res, loss=0, x0=[], r=r))
    elif kind == 'antichain':
        M = np.zeros((len(script['rel']), n), dtype=bool)
        for k, s in enumerate(script['rel']):
            M[k, [a - 1 for a in s]] = True
        facts = []
        for r in range(4):
            rows = np.arange(len(M)) if r == 0 else rng.permutation(len(M))
            if r == 3:
                rows = np.concatenate([rows, rows[:2]])
            facts.append([[int(a) + 1 for a in f] for f in learn.compute_factorization(M[rows].copy())])
        steps.append(dict(op='fact', facts=facts))
    elif kind == 'clf':
        part = [[a - 1 for a in b] for b in script['part']]
        X = np.array(script['X'], dtype=float)
        clf = FactorizedLinearClassifier(part, 40. * np.array(script['w'][:n + len(part)]))

        def blocks(c):
            res, at = [], 0
            for b in c.partition:
                w = [integer(a / 40.) for a in c.weights[at:at + len(b) + 1]]
                res.append(dict(attrs=[int(a) + 1 for a in b], bias=w[0], w=w[1:]))
                at += len(b) + 1
            return res

        def predicted(c):
            return dict(blocks=blocks(c), partial=[[eighths(p) for p in r] for r in np.array([c.partial_proba(X[:, c.partition[k]], k) for k in range(len(c.partition))]).T],
                        proba=[thousand(p) for p in c.predict_proba(X)], pred=[int(p) for p in c.predict(X)])
        steps.append(dict(op='predict', **predicted(clf)))
        while len(clf.partition) > 1:
            a, b = rng.randint(len(clf.partition), size=2)
            warm = int(rng.rand() < .75)
            before = blocks(clf)
            new = clf.merge_partitions(int(a), int(b), warm == 1)
            if blocks(clf) != before:    # a merge makes a new model
                before = []
            steps.append(dict(op='merge', a=int(a) + 1, b=int(b) + 1, warm=warm, before=before, **predicted(new)))
            clf = new
            if a == b:
                break
    elif kind == 'flm':
        bias = script['bias'] == 1
        X, y = np.array(script['X'], dtype=float), np.array(script['y'], dtype=float)
        groups = [[a - 1 for a in b] for b in script['groups']]
        # an optimizer which is content with every starting point, or stops there without having converged

        class Unsure(GradientDescent):
            calls = 0

            def minimize(self, *a):
                res = super().minimize(*a)
                self.calls += 1
                res.success = bool(v // 4 >> self.calls % 3 & 1)
                return res
        opt = [GradientDescent(gtol=1e12), Adam(gtol=1e12), GradientDescent(gtol=1e12, batch_size=2), Unsure(gtol=1e12)][v % 4]
        penalty = SparseGroupLassoPenalty(1e-9, 1e-9, groups=groups) if groups else [None, L1Penalty(1e-9)][v % 2]
        learner = LinearFactorizationLearner(opt, penalty, add_bias=bias)
        x0 = 40. * np.array(script['starts'], dtype=float)
        if not bias:
            x0 = x0[:, :, :-1].copy()
        keep = x0.copy()
        fact = [[a - 1 for a in s] for s in script['fact']] or script['k']
        learner.fit(X, y, fact, retries=len(x0), x0=x0 if len(x0) > 1 or v % 2 else x0[0])

        def state(l):
            W = [[integer(a / 40.) for a in r] for r in l.weights]
            return W, ([0] * len(W) if l.bias is None else [integer(a / 40.) for a in l.bias])
        W, b = state(learner)
        steps.append(dict(op='fit', W=W, b=b, same=int((x0 == keep).all()), partial=[[eighths(p) for p in r] for r in learner.partial_proba(X)],
                          ppred=[[int(p) for p in r] for r in learner.partial_predict(X)], proba=[thousand(p) for p in learner.predict_proba(X)],
                          pred=[int(p) for p in learner.predict(X)]))
        # what is handed out is no part of the model, nor is a copy
        for given in (learner.weights, learner.bias, learner.weight_matrix):
            if given is not None:
                given += 1.
        other = learner.copy()
        apart = [state(other), state(learner)]
        for own in (getattr(other, '_weights', None), getattr(other, '_bias', None)):
            if own is not None:
                own += 1.
        apart.append(state(learner))
        steps.append(dict(op='apart', same=int(all(a == (W, b) for a in apart))))
        if v % 2:    # a copy is as good as the original
            learner = learner.copy()
        pruned = learn.prune_irrelevant_subspaces(X, learner, threshold=[.99, .9, .75][v % 3])
        pW, pb = state(pruned)
        steps.append(dict(op='prune', W=W, b=b, pW=pW, pb=pb, same=int(state(learner) == (W, b))))
        rel = learn.compute_relevant_attributes(learner)
        steps.append(dict(op='relevant', W=W, rel=[[int(a) + 1 for a in np.where(r)[0]] for r in rel], skip=[int(not any(w)) for w in W]))
        if state(learner) != (W, b):
            steps[-1]['rel'] = [[0] for _ in W]
    return dict(script, steps=steps)
