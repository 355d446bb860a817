"""Reproducibility of explorations with the learners of the library: P10 (spec/Repro.tla)."""
PROPS = ['P10']
SEEDS = [{1: 0, 2: 1}, {1: 1, 2: 2}, {1: 12345, 2: 4294967295}]
TRACE = 'ReproTrace'
SCRIPT_TIMEOUT = 150


def generate(ctx):
    from . import zoo
    q = ctx.quick
    ctx.model('ReproMC', 'INIT Init\nNEXT Next\nVIEW View\nCONSTANTS Cfgs = {{1, 2}} Seeds = {{1, 2{}}} Learners = {{1}} Depth = 9 Forget = {{}}\nPROPERTY Repeatable\n'.format('' if q else ', 3'))
    per = 10 if q else 40
    out = ctx.model('ReproMC', 'INIT SimInit\nNEXT SimNext\nCONSTANTS Cfgs = {{1, 2}} Seeds = {{1, 2}} Learners = {{1, 2}} Depth = {} Forget = {{}}\nINVARIANT SimExport\n'.format(
        7 if q else 10), simulate=(per * len(zoo.NAMES), 12)).printed('SCRIPT')
    for k, s in enumerate(out):
        s['learner'] = zoo.NAMES[k % len(zoo.NAMES)]
        s['variant'] = k // len(zoo.NAMES) + ctx.seed * per
    return out


def nontrivial(script, trace):
    keys = [(s['c'], s['s']) for s in trace['steps']]
    return len(set(keys)) < len(keys)


def execute(script):
    import random
    import numpy as np
    from aideme.explore import LabeledSet, PartitionedDataset, PoolBasedExploration
    from aideme.initial_sampling import stratified_sampler, random_sampler
    from aideme.utils import metric_logger
    from aideme.utils.convergence import max_iter_reached
    from aideme.utils.noise import random_noise_injector
    from aideme.utils.metrics import classification_metrics
    from . import zoo
    name, v = script['learner'], script['variant']
    learners, explorers, sets = {}, {}, {}
    np.random.seed(v)
    random.seed(v)
    numbering = v % 2
    factorized = name in zoo.FACTORIZED

    def config(c):
        if c not in sets:
            X, y, part = zoo.dataset(zoo.DATA.get(name, 'flat'), seed=10 * v + c)
            ids = np.arange(len(y)) if not numbering else np.random.RandomState(c).permutation(3 * len(y))[:len(y)]
            sets[c] = X, LabeledSet(y, part, ids)
        return sets[c]

    def explorer(c, obj):
        if obj == 0 or (c, obj) not in explorers:
            X, ls = config(c)
            if c == 2 or factorized:
                sampler = stratified_sampler(ls, 2, 3, neg_in_all_subspaces=factorized)
            else:
                sampler = random_sampler(2)
            kw = dict(callback=[classification_metrics(X, ls.labels, ['accuracy'])], callback_skip=2) if c == 2 else {}
            noise = random_noise_injector(0.1, skip_initial=2) if c == 1 and v % 3 == 2 and name in zoo.NOISE_OK else None
            explorers[c, obj] = PoolBasedExploration(initial_sampler=sampler, convergence_criteria=max_iter_reached(6 if c == 1 else 8),
                                                     subsampling=[15, None][(c + v) % 2], noise_injector=noise, **kw)
        return explorers[c, obj]

    def learner(k):
        if k not in learners:
            learners[k] = zoo.make(name)
        return learners[k]

    steps = []

    def record(c, seed, metrics, whole, l, X):
        h = [[m['labeled_indexes'], ints(m['labels']), ints(m.get('noisy_labels', []))] for m in metrics]
        pred = ints(l.predict(X)) if whole and any(m['phase'] == 'exploration' for m in metrics) else []
        steps.append(dict(c=c, s=str(seed), h=[[ints(a) for a in b] for b in h], w=int(whole), l=pred))

    def ints(a):
        return [int(round(float(x) * 1000)) if float(x) != int(x) else int(x) for x in np.ravel(a)]

    for o in script['ops']:
        c, l = o['c'], learner(o['l'])
        X, ls = config(c)
        if o['k'] == 'rng':
            np.random.seed(o['s'][0]) if o['s'][0] % 2 else np.random.rand(o['s'][0])
            random.seed(o['s'][0])
        elif o['k'] == 'log':
            metric_logger.log_metric('phase', 'strange')
            metric_logger.log_metric('left_over', 3)
        elif o['k'] == 'learner':   # used by hand, on the user's own labels
            ds = PartitionedDataset(X, ls.index.copy(), copy=True)
            lab = ls.get_index(stratified_sampler(ls, 3, 3, neg_in_all_subspaces=factorized)(ds))
            l.clear()
            ds.move_to_labeled(lab)
            l.fit_data(ds)
            l.next_points_to_label(ds, 5)
        elif o['k'] == 'sibling':   # another learner of the class is trained; these are built anew
            other = zoo.make(name, sibling=True)
            ds = PartitionedDataset(X, ls.index.copy(), copy=True)
            ds.move_to_labeled(ls.get_index(stratified_sampler(ls, 3, 3, neg_in_all_subspaces=factorized)(ds)))
            for _ in range(2):
                other.fit_data(ds)
            learners.clear()
        elif o['k'] == 'dataset':   # the caller's own data is used elsewhere
            ds = PartitionedDataset(X, ls.index.copy(), copy=True)
            ds.move_to_labeled(ls.get_index(ls.index[:4]))
            ds.move_to_inferred(ls.index[4:9])
            ds.clear()
        else:
            e = explorer(c, o['obj'])
            seeds, takes = [SEEDS[v % 3].get(k, k) for k in o['s']], o['t']
            full = all(t < 0 for t in takes)
            if full and v % 2:
                runs = e.run(X, ls, l, repeat=len(seeds), seeds=seeds, return_generator=False)
                for k, r in enumerate(runs):
                    record(c, seeds[k], r, True, l, X) if k == len(runs) - 1 else record_list(steps, c, seeds[k], r, ints)
            else:
                arg = seeds[0] if len(seeds) == 1 and v % 3 else seeds
                for k, run in enumerate(e.run(X, ls, l, repeat=len(seeds), seeds=arg, return_generator=True)):
                    got = []
                    for m in run:
                        got.append(m)
                        if 0 <= takes[k] <= len(got):
                            break
                    else:
                        record(c, seeds[k], got, True, l, X)
                        continue
                    record(c, seeds[k], got, False, l, X)
    return dict(steps=steps)


def record_list(steps, c, seed, metrics, ints):
    # read as a list: the learner has moved on to the next run already, so this one counts without its predictions
    h = [[ints(m['labeled_indexes']), ints(m['labels']), ints(m.get('noisy_labels', []))] for m in metrics]
    steps.append(dict(c=c, s=str(seed), h=h, w=0, l=[]))
