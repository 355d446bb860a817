"""Configurations: P41 (spec/Args.tla)."""
PROPS = ['P41']
TRACE = 'ArgsTrace'
SCRIPT_TIMEOUT = 60


def generate(ctx):
    q = ctx.quick
    ctx.model('ArgsMC', 'INIT Init\nNEXT Next\nCONSTANTS MaxH = {} Depth = 1\nINVARIANT SettingStaysPositive\nPROPERTY SettingMovesToAdmitted\n'.format(5 if q else 9))
    n, depth = (400, 40) if q else (4000, 60)
    out = ctx.model('ArgsMC', 'INIT Init\nNEXT SimNext\nCONSTANTS MaxH = 6 Depth = {}\nINVARIANT SimExport\n'.format(depth), simulate=(n, depth + 1)).printed('SCRIPT')
    return [dict(s, variant=j + ctx.seed) for j, s in enumerate(out)]


def nontrivial(script, trace):
    return any(s['answer'] != 'ok' for s in trace['steps']) and any(s['answer'] == 'ok' for s in trace['steps'])


def execute(script):
    import sys
    import types
    import numpy as np
    from sklearn.svm import SVC
    stub = types.ModuleType('pystan')
    stub.StanModel = object
    sys.modules.setdefault('pystan', stub)
    import aideme
    from aideme import initial_sampling
    from aideme.explore import PartitionedDataset, LabeledSet, ExplorationManager, PoolBasedExploration
    from aideme.explore.command_line_explore import CommandLineExploration
    from aideme.utils import convergence, noise, metrics
    from aideme.active_learning import dsm, kernel, margin, entropy, query_by_disagreement, random as rnd
    from aideme.active_learning.dsm import model, polytope
    from aideme.active_learning.version_space import base as vs, subspace, bayesian  # noqa: F401
    from aideme.active_learning.version_space.bayesian import base as bb, laplace
    from aideme.active_learning.version_space.hit_and_run import hit_and_run, rounding, ellipsoid
    from aideme.active_learning.factorization import active_learning as fal, optimization as fo, penalty as fp, linear, learn, step_size_scheduler as fs
    from aideme.active_learning.factorization.partitioning import learn as pl, linear as plin

    X = np.array([[0., 1], [1, 0], [2, 2], [3, 1]])
    y = np.array([0., 1, 0, 1])
    labels = LabeledSet([0, 1] * 4)

    class Clf:
        def fit(self, X, y, sample_weight=None): pass
        def predict(self, X): return np.zeros(len(X))
        def predict_proba(self, X): return np.full(len(X), 0.5)

    def flm():
        return linear.LinearFactorizationLearner(fo.GradientDescent(max_iter=1, gtol=0), add_bias=False)

    def polytope_of(cls):
        def make(**kw):
            pol = cls(**kw)
            pol.update(np.array([[0., 0], [1, 0], [0, 1], [3, 3]]), np.array([1, 1, 1, 0]))
        return make

    def noisy(noise_=0.5, skip_initial=0):
        return noise.random_noise_injector(noise_, skip_initial)

    def trained(**kw):
        flm().fit(X, y, factorization=kw.pop('factorization', 1), **kw)

    def pruned(**kw):
        m = flm()
        m.fit(X, y, factorization=1, x0=np.array([[1., 0]]))
        learn.prune_irrelevant_subspaces(X, m, **kw)

    make = dict(
        pool_exploration=PoolBasedExploration, cli_exploration=CommandLineExploration,
        manager=lambda **kw: ExplorationManager(PartitionedDataset(X), rnd.RandomSampler(Clf()), **kw),
        max_iter_reached=lambda max_iters=1: convergence.max_iter_reached(max_iters),
        noise=lambda **kw: noisy(**{dict(noise='noise_').get(k, k): v for k, v in kw.items()}),
        stratified=lambda **kw: initial_sampling.stratified_sampler(labels, **kw),
        random_initial=initial_sampling.random_sampler,
        random_sampler=lambda **kw: rnd.RandomSampler(Clf(), **kw),
        polytope=polytope_of(polytope.Polytope), persistent_polytope=polytope_of(polytope.PersistentPolytope),
        dual_space=lambda **kw: aideme.active_learning.DualSpaceModel(margin.SimpleMargin(), **kw),
        factorized_dual=lambda **kw: aideme.active_learning.FactorizedDualSpaceModel(subspace.SubspatialSimpleMargin([[0], [1]]), partition=[[0], [1]], **kw),
        disagreement=lambda **kw: query_by_disagreement.QueryByDisagreement(SVC(), **kw),
        linear_vs=vs.LinearVersionSpace, kernel_vs=vs.KernelVersionSpace,
        poly_vs=lambda **kw: vs.KernelVersionSpace(kernel='poly', **kw),
        subspatial_vs=lambda **kw: subspace.SubspatialVersionSpace(partition=[[0], [1]], **kw),
        entropy_vs=entropy.EntropyReductionLearner,
        sampler=hit_and_run.HitAndRunSampler, chains=lambda **kw: hit_and_run.HitAndRunSampler(single_chain=False, **kw),
        rounding=rounding.RoundingAlgorithm, sphere_descent=rounding.SphericalGradientDescent, ellipsoid=ellipsoid.Ellipsoid,
        laplace=laplace.LaplaceBayesianLogisticRegression, kernel_laplace=laplace.KernelLaplaceBayesianLogisticRegression,
        bayes_linear=bb.BayesianLinearVersionSpace, bayes_kernel=bb.BayesianKernelVersionSpace,
        swap=lambda **kw: fal.SwapLearner(margin.SimpleMargin(), flm(), **kw),
        fact_manager=lambda **kw: fal.FactorizationManager([[0], [1]], **kw),
        flm_uncertainty=fal.FLMUncertaintySampler,
        l1_penalty=lambda penalty=1: fp.L1Penalty(penalty), l2_penalty=lambda penalty=1: fp.L2Penalty(penalty),
        group_penalty=lambda penalty=1: fp.L2SqrtPenalty(penalty), interaction=lambda penalty=1: fp.InteractionPenalty(penalty),
        sparse_group=lambda l1_penalty=1, l2_sqrt_penalty=1: fp.SparseGroupLassoPenalty(l1_penalty, l2_sqrt_penalty),
        huber=lambda penalty=1, **kw: fp.HuberPenalty(penalty, **kw),
        brute_force=pl.BruteForceSelector, greedy=pl.GreedySelector,
        bfgs=fo.BFGS, gradient_descent=fo.GradientDescent, proximal=fo.ProximalGradientDescent, fista=fo.FISTA, adam=fo.Adam,
        power_steps=lambda step_size=1, power=1, **kw: fs.PowerDecayScheduler(step_size, power, **kw),
        exponential_steps=lambda step_size=1, decay=1, **kw: fs.ExponentialDecayScheduler(step_size, decay, **kw),
        fixed_steps=fs.FixedScheduler,
        training=trained, subspaces=trained, pruning=pruned,
        gaussian_kernel=kernel.GaussianKernel, poly_kernel=kernel.PolynomialKernel,
        jittered_kernel=lambda jitter: kernel.IncrementedDiagonalKernel(kernel.GaussianKernel(), jitter),
    )
    choose = dict(
        polytope_mode=lambda x: model.PolytopeModel(x), factorized_mode=lambda x: model.FactorizedPolytopeModel([[0], [1]], ['persist', x]),
        subspace_mode=lambda x: subspace.SubspatialVersionSpace([[0], [1]], mode=['numerical', x]),
        kernel=lambda x: kernel.KernelTransformer.get(x), vs_kernel=lambda x: vs.KernelVersionSpace(kernel=x),
        linear_bayes=lambda x: None if x == 'stan' else bb.BayesianLinearVersionSpace(sampler=x),
        kernel_bayes=lambda x: None if x == 'stan' else bb.BayesianKernelVersionSpace(sampler=x),
        prior=lambda x: laplace.LaplaceBayesianLogisticRegression(prior=x),
        rounding=lambda x: rounding.RoundingAlgorithm(strategy=x), retraction=lambda x: rounding.SphericalGradientDescent(retraction=x),
    )
    v = script['variant']

    def explore(repeat, seeds):
        runs = PoolBasedExploration(convergence_criteria=convergence.max_iter_reached(1)).run(X, y, rnd.RandomSampler(Clf()), repeat=repeat, seeds=seeds)
        assert len(list(runs)) == repeat
    fit = dict(
        modes_of_model=lambda m, n: model.FactorizedPolytopeModel([[j] for j in range(m)], ['persist'] * n),
        modes_of_subspaces=lambda m, n: subspace.SubspatialVersionSpace([[j] for j in range(m)], mode=['numerical'] * n),
        modes_of_dual_space=lambda m, n: aideme.active_learning.FactorizedDualSpaceModel(
            subspace.SubspatialSimpleMargin([[j] for j in range(m)]), partition=[[j] for j in range(m)], mode=['persist'] * n),
        seeds=lambda m, n: explore(m, list(range(n))), single_seed=lambda m, n: explore(m, n),
        partial_rows=lambda m, n: LabeledSet([1] * m, np.ones((n, 2))) if v % 2 else LabeledSet([1] * m).set_partial_labels(np.ones((n, 2))),
        index_rows=lambda m, n: LabeledSet([1] * m, index=list(range(5, 5 + n))),
        partial_dimensions=lambda m, n: LabeledSet([1] * m, np.ones((m,) + (1,) * (n - 1) if n else ())),
        weights=lambda m, n: plin.FactorizedLinearClassifier([[j] for j in range(m)], np.zeros(2 * n)),
    )
    kept = [fp.L1Penalty, fp.L2Penalty, fp.L2SqrtPenalty, fp.InteractionPenalty][v % 4](1)
    steps = []

    def halves(x):
        return -99 if x is None or x == float('inf') else int(x * 2)

    class Losses:
        def compute_factorization_loss(self, X, y, partition): return 1.
        def fit_and_loss(self, X, y, partition, weights=None): return plin.FactorizedLinearClassifier(partition), 1.

    def searched(selector, m):
        found = selector(np.arange(4. * m).reshape(4, m) % 3, y, Losses())
        assert sorted(sum(map(list, found), [])) == list(range(m))

    def value(x):
        if x['k'] == 'none':
            return None
        if x['k'] == 'inf':
            return float('inf')
        return x['h'] // 2 if x['h'] % 2 == 0 else x['h'] / 2
    for o in script['ops']:
        try:
            if o['op'] == 'make':
                make[o['what']](**{k: value(x) for k, x in o['args']})
            elif o['op'] == 'choose' and o['what'] == 'score':
                metrics.classification_metrics(X, y, o['args']) if v % 2 else metrics.training_classification_metrics(o['args'])
            elif o['op'] == 'choose':
                choose[o['what']](o['args'][0])
            elif o['op'] == 'fit':
                fit[o['what']](o['m'], o['n'])
            elif o['op'] == 'set':
                kept.penalty = value(o['args'][0])
            else:
                k, dim = o['args']
                cls = pl.BruteForceSelector if o['what'] == 'brute_force' else pl.GreedySelector
                searched(cls(max_partitions=k, max_dim=dim), o["m"])
            answer = 'ok'
        except (ValueError, TypeError):
            answer = 'refused'
        except Exception as e:
            answer = type(e).__name__
        steps.append(dict(o, answer=answer, value=halves(kept.penalty)))
    return dict(steps=steps)
