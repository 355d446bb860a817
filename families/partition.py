"""Partitioned datasets: P01-P04 and P29 (spec/Partition.tla)."""
PROPS = ['P01', 'P02', 'P03', 'P04', 'P29']
TRACE = 'PartitionTrace'
MODELS = ['Partition', 'PartitionMC', 'PartitionTrace']

INVS = 'INVARIANT TypeOK OnePartition LastIsOwn LastAgrees'


def generate(ctx):
    quick = ctx.tier == 'quick'
    # exhaustive check of the design
    ctx.model('PartitionMC', 'INIT Init\nNEXT Next\nVIEW View\nCONSTANTS N = {} MaxBatch = {} SimN = {{1}} Depth = 99\n{}\n'
              'PROPERTY RefusedIsNop ResetIsInit LabelsLeave\n'.format(*(((2, 2) if quick else (3, 2)) + (INVS,))))
    # every transition of a small model, as scripts
    a = ctx.model('PartitionMC', 'INIT Init\nNEXT Next\nVIEW View\nACTION_CONSTRAINT Export\nCONSTANTS N = {} MaxBatch = {} SimN = {{1}} Depth = 99\n{}\n'
                  .format(2 if quick else 3, 1, INVS), workers=1).printed('SCRIPT')
    # random behaviours of larger ones
    n, depth = (400, 14) if quick else (6000, 20)
    b = ctx.model('PartitionMC', 'INIT SimInit\nNEXT SimNext\nCONSTANTS N = 3 MaxBatch = 2 SimN = {{{}}} Depth = {}\n{} SimExport\n'.format(
        '3, 5, 7, 9' if quick else '2, 3, 4, 5, 6, 8, 11, 16', depth, INVS), simulate=(n, depth + 1)).printed('SCRIPT')
    scripts = a + b
    for k, s in enumerate(scripts):
        s['variant'] = k + ctx.seed
    return scripts


def nontrivial(script, trace):
    return len({s['op'] for s in trace['steps']}) >= 3


# ---- driver -------------------------------------------------------------------------------------------------------
def execute(script):
    import numpy as np
    from aideme.explore import LabeledSet, PartitionedDataset
    n, v = script['n'], script['variant']
    rng = np.random.RandomState(v)
    np.random.seed(v % 1000)
    # spec id -> index
    numbering = v % 4
    idx = {0: list(range(n)), 1: [3 * k - 4 for k in range(n)], 2: [7 * k + 2 for k in range(n)], 3: [k * k for k in range(n)]}[numbering]
    if numbering:
        rng.shuffle(idx)
    ix = {k + 1: int(idx[k]) for k in range(n)}
    ix[99] = 777
    d = 1 + (v // 4) % 3
    data = np.array([[float(idx[k]) * 1.5 + j * 0.25 for j in range(d)] for k in range(n)])
    row_of = {tuple(r): int(idx[k]) for k, r in enumerate(data.tolist())}
    copy = (v // 12) % 2 == 0
    alias = (v // 24) % 2 == 0

    given = data.copy(), np.array(idx)
    ds = PartitionedDataset(given[0], given[1] if numbering or v % 8 else None, copy=copy)

    def rid(r):
        return row_of.get(tuple(np.asarray(r).tolist()), -999)

    def i_(x):
        return int(x) if float(x) == int(x) else -998

    def ds_pairs(view):
        assert len(view.index) == len(view.data) == len(view)
        return [[i_(a), rid(r)] for a, r in zip(view.index, view.data)]

    def labs(y):
        y = np.asarray(y)
        assert y.ndim == 1
        return [i_(a) for a in y]

    def parts(y):
        y = np.asarray(y)
        assert y.ndim == 2
        return [[i_(a) for a in r] for r in y]

    def zipped(X, y):
        assert len(X) == len(y), (len(X), len(y))
        return [[rid(r), a] for r, a in zip(X, y)]

    held = [None]

    def held_obs():
        if held[0] is None:
            return []
        return [list(p) for p in zip(labs(held[0].index), labs(held[0].labels))]

    def observe():
        X, y = ds.training_set()
        Xp, yp = ds.training_set(get_partial=True)
        Xl, yl = ds.last_training_set()
        Xlp, ylp = ds.last_training_set(get_partial=True)
        ls = ds.labeled_set
        o = dict(lab=ds_pairs(ds.labeled), inf=ds_pairs(ds.inferred), unk=ds_pairs(ds.unknown), unl=ds_pairs(ds.unlabeled),
                 sizes=[int(ds.labeled_size), int(ds.inferred_size), int(ds.unknown_size), int(ds.unlabeled_size), len(ds)],
                 ts=zipped(X, labs(y)), tsp=zipped(Xp, parts(yp)), lts=zipped(Xl, labs(yl)), ltsp=zipped(Xlp, parts(ylp)),
                 order=labs(ds.index), held=held_obs())
        assert len(ds.index) == len(ds.data)
        o['all'] = [[i_(a), rid(r)] for a, r in zip(ds.index, ds.data)]
        li, ll, lp = labs(ls.index), labs(ls.labels), parts(ls.partial)
        assert len(li) == len(ll) == len(lp)
        o['ls'] = [list(x) for x in zip(li, ll, lp)]
        if not ll:   # a labeled set without points may show any shape of partial labels
            o['tsp'] = []
        return o

    class Learner:
        def __init__(self, pred):
            self.pred = pred

        def predict(self, X):
            return np.array([self.pred.get(rid(r), -5) for r in X], dtype=float)

    views = {0: lambda: ds, 1: lambda: ds.labeled, 2: lambda: ds.inferred, 3: lambda: ds.unknown, 4: lambda: ds.unlabeled}

    def lookup(q):
        view = ds.from_index(q if v % 3 else np.array(q, dtype=int))
        return ds_pairs(view)

    def sample(which, size):
        if which == 0:
            return [[a, a] for a in map(rid, ds.sample(size))]
        return ds_pairs(views[which]().sample(size))

    def pick(b):
        """The batch as an array: a view of the dataset itself where that has just these points, in its own order"""
        if alias and len(b) == len(set(b)) and b:
            for w in (3, 4, 2, 1):
                w = views[w]()
                if set(w.index.tolist()) == set(b):
                    return w.index
        return np.array(b, dtype=int) if v % 2 else list(b)

    steps = []
    for o in script['ops']:
        op, b, y, p = o['op'], o['b'], o['y'], o['p']
        if op != 'SM':
            b = [ix[k] for k in b]
        err, r = 0, []
        if op == 'SP':
            y_of = dict(zip(b, p))
            b = labs(ds.labeled_set.index)
            p = [y_of.get(k, [0, 0]) for k in b]
        q = None
        if op in ('ML', 'MI', 'MU'):
            q = pick(b)
            if list(q) != b:
                at = {k: j for j, k in enumerate(b)}
                b = [int(k) for k in q]
                y, p = ([y[at[k]] for k in b], [p[at[k]] for k in b]) if y else (y, p)
        try:
            if op == 'ML':
                part = np.array(p, dtype=float) if len(p) else np.zeros((0, 2))
                ds.move_to_labeled(LabeledSet(np.array(y, dtype=float), part, q))
            elif op == 'MI':
                ds.move_to_inferred(q)
            elif op == 'MU':
                ds.move_to_unknown(q)
            elif op == 'RI':
                ds.remove_inferred()
            elif op == 'CL':
                ds.clear()
            elif op == 'SP':
                ds.set_partial_labels(np.array(p, dtype=float) if len(p) else np.zeros((0, 2)))
            elif op == 'LK':
                r = lookup(b)
            elif op == 'SM':
                r = sample(y[0], None if b[0] > n else b[0])
                if b[0] > n:
                    b = [99]
            elif op == 'PU':
                held[0] = ds.predict_user_labels(Learner(dict(zip(b, y))))
                r = held_obs()
        except Exception as e:
            err = 1
        steps.append(dict(op=op, b=b, y=y, p=p, err=err, r=r, o=observe()))
    return dict(ids=idx, steps=steps)
