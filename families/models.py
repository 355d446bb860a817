"""Polytope models: P14-P17 (spec/Geometry.tla, spec/Models.tla)."""
PROPS = ['P14', 'P15', 'P16', 'P17']
TRACE = 'ModelsTrace'
REST = ' Kinds = {} Coords = 1 PoolSize = 1 Depth = 1\n'
KINDS = {'P14': '"one", "two", "three"', 'P15': '"one", "two", "three"', 'P16': '"items", "learner"', 'P17': '"fact"'}


def generate(ctx):
    q = ctx.quick
    entail = 'INVARIANT ConflictIsContradiction Sound Complete NotBoth\nPROPERTY Monotone\n'
    if ctx.prop in ('P14', 'P15'):
        ctx.model('ModelsMC', 'INIT Init\nNEXT Next\nCONSTANTS GDim = 1 GMax = {} MaxP = 9 MaxN = 9'.format(4 if q else 5) + REST + entail)
        ctx.model('ModelsMC', 'INIT Init\nNEXT Next\nCONSTANTS GDim = 2 GMax = 2 MaxP = {} MaxN = {}'.format(4, 2 if q else 4) + REST + entail)
    if ctx.prop in ('P16', 'P17'):
        ctx.model('ModelsMC', 'INIT Init\nNEXT Next\nCONSTANTS GDim = {} GMax = 1 MaxP = {} MaxN = 3'.format(3 if q else 4, 3 if q else 2)
                  + REST + 'INVARIANT MultiExact\n')
    n, depth = (700, 8) if q else (9000, 11)
    out = ctx.model('ModelsMC', 'INIT SimInit\nNEXT SimNext\nCONSTANTS GDim = 1 GMax = 0 MaxP = 0 MaxN = 0 Kinds = {{{}}} Coords = 12 PoolSize = {} Depth = {}\n'
                    'INVARIANT SimExport\n'.format(KINDS[ctx.prop], 11 if q else 13, depth), simulate=(n, depth + 2)).printed('SCRIPT')
    if ctx.prop == 'P14':   # crowded spaces, where convex hulls are often degenerate
        out += ctx.model('ModelsMC', 'INIT SimInit\nNEXT SimNext\nCONSTANTS GDim = 1 GMax = 0 MaxP = 0 MaxN = 0 Kinds = {{"three"}} Coords = 2 PoolSize = 16 Depth = 7\n'
                         'INVARIANT SimExport\n'.format(), simulate=(400 if q else 2500, 9)).printed('SCRIPT')
    scripts = [dict(s['s'], ops=s['ops']) for s in out]
    for k, s in enumerate(scripts):
        s['variant'] = k + 13 * ctx.seed
    return scripts


def nontrivial(script, trace):
    return any(len(set(s['pred'])) > 1 for s in trace['steps'])


def learner_steps(learner, script, data):
    import numpy as np
    from aideme.explore import LabeledSet, PartitionedDataset
    steps, valid = [], True
    for o in script['ops']:
        rows = [k - 1 for k in o['b']]
        y = np.array([script['truth'][0][k] / 2. for k in rows])
        r, op = 1, o['op']
        try:
            if op == 'clear':
                learner.clear()
            elif op == 'fit':
                learner.fit(data[rows], y)
            elif rows:
                ds = PartitionedDataset(data, copy=True)
                ds.move_to_labeled(LabeledSet(y, index=rows))
                learner.fit_data(ds)
            else:
                op = 'copy'
        except RuntimeError:
            r = -1
        if op != 'copy':
            valid = r == 1
        proba = learner.predict_proba(data) if valid else []
        pred = [0 if p == 0 else 2 if p == 1 else 1 if 0 < p < 1 else -1 for p in proba]
        if script['subs'][0]['mode'] == 'categorical':
            pred = [p if q in (0., .5, 1.) else -1 for p, q in zip(pred, proba)]
        label = [{0.: 0, 1.: 2}.get(float(a), -1) for a in learner.predict(data)] if valid else []
        steps.append(dict(op=op, b=[dict(k=k + 1, y=[script['truth'][0][k]]) for k in rows], r=r, valid=int(valid), pred=pred, parts=[], label=label))
    return steps


def execute(script):
    import copy
    import pickle
    import numpy as np
    from aideme.active_learning.dsm.model import PolytopeModel, FactorizedPolytopeModel
    from aideme.active_learning.dsm.polytope import Polytope, FlippedPolytope, PersistentPolytope, CategoricalPolytope, MultiSetPolytope
    v, subs, pool, truth = script['variant'], script['subs'], script['pool'], script['truth']
    rng = np.random.RandomState(v)
    scale, shift = [(1., 0.), (0.125, -3.), (8., 16.)][v % 3]

    def columns(s, x):
        if s['mode'] == 'categorical':
            return [1. if k == x[0] else 0. for k in range(4)]
        if s['mode'] == 'multiset':
            return [float(a) for a in x]
        return [a * scale + shift for a in x]

    fact = script['kind'] == 'fact'
    modes = [s['mode'] for s in subs]
    widths = [len(columns(s, x)) for s, x in zip(subs, pool[0])]
    data = np.array([[c for s, x in zip(subs, p) for c in columns(s, x)] for p in pool])
    partition, at = [], 0
    for w in widths:
        partition.append(list(range(at, at + w)))
        at += w
    if fact and v % 2:     # the columns of the subspaces are scattered
        perm = rng.permutation(at)
        data = data[:, perm]
        where = {int(c): k for k, c in enumerate(perm)}
        partition = [[where[c] for c in p] for p in partition]
    if fact:
        mode = modes[0] if len(set(modes)) == 1 and v % 3 else modes
        model = FactorizedPolytopeModel(None if len(subs) == 1 and v % 4 == 2 else partition, mode)
    elif script['kind'] == 'learner':
        from aideme.active_learning.version_space.categorical import CategoricalActiveLearner, MultiSetActiveLearner
        np.random.seed(v)
        model = CategoricalActiveLearner() if modes[0] == 'categorical' else MultiSetActiveLearner()
        return dict(kind=script['kind'], subs=subs, pool=pool, steps=learner_steps(model, script, data))
    elif v % 4 == 3:
        model = {'positive': Polytope, 'negative': FlippedPolytope, 'persist': PersistentPolytope,
                 'categorical': CategoricalPolytope, 'multiset': MultiSetPolytope}[modes[0]]()
    else:
        model = PolytopeModel(modes[0])
    code = {0.: 0, 0.5: 1, 1.: 2}

    def labels(y):
        return [code.get(float(a), -1) for a in y]

    steps = []
    for o in script['ops']:
        b, r = o['b'], 1
        if o['op'] == 'update':
            X = data[[k - 1 for k in b]].reshape(len(b), data.shape[1]).copy()
            Y = np.array([[truth[j][k - 1] / 2. for j in range(len(subs))] for k in b]).reshape(len(b), len(subs))
            y = Y if fact else Y[:, 0].copy()
            try:
                res = model.update(X, y)
                r = int(bool(res)) if res in (True, False) else -2
            except Exception:
                r = -1
            X.fill(-77.)     # the caller goes on using its arrays
            y.fill(-1.)
        elif o['op'] == 'clear':
            model.clear()
        elif v % 2:
            model = pickle.loads(pickle.dumps(model))
        else:
            model = copy.deepcopy(model)
        asked = data.copy()
        pred = model.predict(asked)
        assert len(pred) == len(asked) and np.array_equal(asked, data)
        parts = [labels(p) for p in model.predict_partial(asked)] if fact else []
        steps.append(dict(op=o['op'], b=[dict(k=k, y=[truth[j][k - 1] for j in range(len(subs))]) for k in b], r=r,
                          valid=int(bool(model.is_valid)), pred=labels(pred), parts=parts))
    return dict(kind=script['kind'], subs=subs, pool=pool, steps=steps)
