"""The learners of the library, in configurations which are fast on small data."""


def dataset(kind, n=36, seed=0):
    """(data, labels, partial labels): a convex region in two dimensions, or a conjunction over two + one attributes"""
    for k in range(1000):
        X, y, part = draw(kind, n, seed * 1000 + k)
        none = (part if part is not None else y.reshape(-1, 1)).max(axis=1) == 0
        if sum(y == 1) >= 4 and sum(none) >= 4:
            return X, y, part


def draw(kind, n, seed):
    import numpy as np
    rng = np.random.RandomState(seed)
    if kind == 'flat':
        X = np.round(rng.uniform(-2, 2, size=(n, 2)), 6)
        part = np.array([(X[:, 0] ** 2 + X[:, 1] ** 2 < 2.0)]).T.astype(float)
    elif kind == 'linear':
        X = np.round(rng.uniform(-2, 2, size=(n, 2)), 6)
        X = X[np.abs(X[:, 0] + X[:, 1] - .3) > .25]
        part = np.array([(X[:, 0] + X[:, 1] > .3)]).T.astype(float)
    elif kind == 'conj':
        X = np.round(rng.uniform(-2, 2, size=(n, 3)), 6)
        part = np.array([X[:, 0] + X[:, 1] > -1., np.abs(X[:, 2]) < 1.2]).T.astype(float)
    elif kind == 'category':
        V = rng.randint(0, 4, size=(n, 2))
        X = np.hstack([np.eye(4)[V[:, 0]], np.eye(4)[V[:, 1]]])
        part = (V > 0).astype(float)
    elif kind == 'items':
        X = (rng.rand(n, 24) < .25).astype(float)
        X[np.arange(n), rng.randint(0, 12, size=n)] = 1
        X[np.arange(n), rng.randint(12, 24, size=n)] = 1
        part = np.array([X[:, 0] + X[:, 1] == 0, X[:, 12] + X[:, 13] == 0]).T.astype(float)
    y = part.min(axis=1)
    if part.shape[1] == 1:
        part = None
    return X, y, part


def make(name, sibling=False):
    """sibling: another learner of the class, with other parameters"""
    from sklearn.linear_model import LogisticRegression
    from sklearn.svm import SVC
    import aideme.active_learning as al
    from aideme.active_learning.factorization.active_learning import FLMUncertaintySampler
    from aideme.active_learning.factorization.linear import LinearFactorizationLearner
    from aideme.active_learning.factorization.optimization import Adam, FISTA, GradientDescent
    from aideme.active_learning.factorization.penalty import L1Penalty, SparseGroupLassoPenalty
    vs = dict(n_samples=4, warmup=10, thin=3)
    P = [[0, 1], [2]]

    def flm(iters=15, **kw):
        return LinearFactorizationLearner(optimizer=Adam(step_size=0.1, max_iter=iters, **kw), penalty_term=L1Penalty(1e-4))
    return {
        'simple_margin': lambda: al.SimpleMargin(C=100),
        'random': lambda: al.RandomSampler(SVC(C=10)),
        'ratio': lambda: al.RatioMargin(C=10),
        'uncertainty': lambda: al.UncertaintySampler(LogisticRegression()),
        'kernel_vs': lambda: al.KernelVersionSpace(**vs),
        'kernel_vs_chains': lambda: al.KernelVersionSpace(single_chain=False, cache_samples=True, rounding_cache=False, **vs),
        'kernel_vs_plain': lambda: al.KernelVersionSpace(cache_samples=False, rounding=False, decompose=False, **vs),
        'linear_vs': lambda: al.LinearVersionSpace(**vs),
        'entropy': lambda: al.EntropyReductionLearner(data_sample_size=10, **vs),
        'qbd': lambda: al.QueryByDisagreement(SVC(C=10), background_sample_size=8),
        'dsm': lambda: al.DualSpaceModel(al.SimpleMargin(C=100), sample_unknown_proba=0.5),
        'dsm_vs': lambda: al.DualSpaceModel(al.KernelVersionSpace(**vs), sample_unknown_proba=0.5),
        'fdsm': lambda: al.FactorizedDualSpaceModel(al.SimpleMargin(C=100), sample_unknown_proba=0.5, partition=P),
        'sub_vs': lambda: al.SubspatialVersionSpace(partition=P, **vs),
        'sub_cat': lambda: al.SubspatialVersionSpace(partition=[[0, 1, 2, 3], [4, 5, 6, 7]], mode='categorical', **vs),
        'sub_items': lambda: al.SubspatialVersionSpace(partition=[list(range(12)), list(range(12, 24))], mode='multiset', **vs),
        'fdsm_cat': lambda: al.FactorizedDualSpaceModel(al.SimpleMargin(C=100), sample_unknown_proba=0.5, partition=[[0, 1, 2, 3], [4, 5, 6, 7]], mode=['categorical', 'multiset']),
        'flm': lambda: FLMUncertaintySampler(max_iter=15, num_subspaces=3, penalty=.05, penalty_iter=3, prune=False),
        'flm_prune': lambda: FLMUncertaintySampler(max_iter=15, num_subspaces=3, penalty_iter=3, prune=True, log=True),
        'sub_margin': lambda: al.SubspatialSimpleMargin(partition=P, C=100),
        'swap': lambda: al.SwapLearner(al.SimpleMargin(C=100), swap_model=flm(), num_subspaces=3, swap_iter=2, train_sample_size=20),
        'swap_adapter': lambda: al.SwapLearner(al.SimpleMargin(C=100), swap_model=flm(), num_subspaces=3, swap_iter=2, max_iter_adapter=lambda k: 3 + k),
        'swap_batch': lambda: al.SwapLearner(al.SimpleMargin(C=100), swap_model=flm(batch_size=7), refining_model=flm(5), num_subspaces=3, swap_iter=2),
        'swap_momentum': lambda: al.SwapLearner(al.SimpleMargin(C=100), swap_iter=1, num_subspaces=2, prune=False, swap_model=LinearFactorizationLearner(
            optimizer=GradientDescent(step_size=0.1, max_iter=12, adapt_step_size=True, adapt_every=3, batch_size=9))),
        'swap_fista': lambda: al.SwapLearner(al.KernelVersionSpace(**vs), swap_iter=2, num_subspaces=3, train_on_prediction=False, swap_model=flm(),
                                             refining_model=LinearFactorizationLearner(optimizer=FISTA(step_size=.5, max_iter=6), penalty_term=SparseGroupLassoPenalty(.02, .02))),
        'kernel_vs_unrounded': lambda: al.KernelVersionSpace(rounding=False, decompose=True, cache_samples=True, **vs),
        'swap_simple': lambda: al.SimplifiedSwapLearner(use_vs=False, swap_iter=1, train_sample_size=20, num_subspaces=2, prune=False, refine_max_iter=5, **(
            dict(refine_step_size=.9) if sibling else {})),
        'swap_full': lambda: al.SwapLearner(al.SimpleMargin(C=100), swap_model=flm(25), refining_model=flm(10), num_subspaces=3, swap_iter=1,
                                            fact_model=al.SubspatialVersionSpace(partition=P, **vs), user_fact=P, compute_fact_every=1, fact_repeat=1, fact_max_iter=30),
    }[name]()


DATA = {'linear_vs': 'linear', 'fdsm': 'conj', 'sub_vs': 'conj', 'sub_cat': 'category', 'sub_margin': 'conj', 'swap': 'conj', 'swap_adapter': 'conj',
        'swap_batch': 'conj', 'swap_fista': 'conj', 'sub_items': 'items', 'fdsm_cat': 'category', 'flm': 'conj', 'flm_prune': 'conj', 'swap_momentum': 'conj', 'swap_simple': 'conj', 'swap_full': 'conj'}
NAMES = ['simple_margin', 'random', 'ratio', 'uncertainty', 'kernel_vs', 'kernel_vs_chains', 'kernel_vs_plain', 'linear_vs', 'entropy', 'qbd', 'dsm', 'dsm_vs',
         'fdsm', 'fdsm_cat', 'sub_vs', 'sub_cat', 'sub_items', 'flm', 'flm_prune', 'sub_margin', 'swap', 'swap_adapter', 'swap_batch', 'swap_momentum', 'swap_simple', 'swap_full', 'swap_fista', 'kernel_vs_unrounded']
FACTORIZED = {'fdsm', 'fdsm_cat', 'sub_vs', 'sub_cat', 'sub_items', 'sub_margin'}    # trained on partial labels
NOISE_OK = {'simple_margin', 'ratio', 'uncertainty', 'kernel_vs', 'entropy', 'qbd', 'swap', 'swap_adapter', 'swap_batch', 'swap_momentum', 'swap_simple'}
