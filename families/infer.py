"""Inference from final labels: P28 (spec/Inference.tla)."""
PROPS = ['P28']
TRACE = 'InferenceTrace'
SCRIPT_TIMEOUT = 20


def generate(ctx):
    q = ctx.quick
    rest = ' SimK = 1 SimV = 2 Depth = 1\nINVARIANT ContradictionExact PartialExact FinalSound\nPROPERTY Grows\n'
    for k, v, mp, mn in ([(2, 2, 4, 4), (3, 2, 2, 3), (2, 3, 2, 3)] if q else [(2, 2, 4, 4), (3, 2, 3, 4), (2, 3, 3, 4), (1, 4, 4, 4)]):
        ctx.model('InferenceMC', 'INIT Init\nNEXT Next\nCONSTANTS K = {} V = {} MaxP = {} MaxN = {}'.format(k, v, mp, mn) + rest)
    n, depth = (900, 12) if q else (10000, 14)
    out = ctx.model('InferenceMC', 'INIT SimInit\nNEXT SimNext\nCONSTANTS K = 1 V = 1 MaxP = 0 MaxN = 0 SimK = {} SimV = {} Depth = {}\n'
                    'INVARIANT SimExport\n'.format(3 if q else 4, 5 if q else 6, depth), simulate=(n, depth + 2)).printed('SCRIPT')
    return [dict(s['s'], ops=s['ops'], variant=j + 5 * ctx.seed) for j, s in enumerate(out)]


def nontrivial(script, trace):
    return any(len({y for p in s['parts'] for y in p}) == 3 for s in trace['steps'])


def execute(script):
    import copy
    import importlib
    import numpy as np
    Inference = importlib.import_module('aideme.active_learning.inference.inference').Inference
    v, k, pool = script['variant'], script['k'], script['pool']
    rng = np.random.RandomState(v)
    # a value takes one or two columns
    wide = [1 + (v + j) % 2 for j in range(k)]
    cols = lambda j, a: [float(a)] if wide[j] == 1 else [float(a % 2), float(a // 2)]
    data = np.array([[c for j, a in enumerate(p) for c in cols(j, a)] for p in pool])
    partition, at = [], 0
    for w in wide:
        partition.append(list(range(at, at + w)))
        at += w
    if v % 3 == 0:
        perm = rng.permutation(at)
        data = data[:, perm]
        where = {int(c): p for p, c in enumerate(perm)}
        partition = [[where[c] for c in p] for p in partition]
    if v % 2:
        data = data.astype(int)
    inf = Inference(partition)
    codes = {0.: 0, .5: 1, 1.: 2}
    steps, broken = [], False
    for o in script['ops']:
        if broken and o['op'] != 'clear':
            continue
        r, b = 1, [[q, script['y'][q - 1]] for q in o['b']]
        if o['op'] == 'clear':
            inf.clear()
        elif o['op'] == 'copy':
            inf = copy.deepcopy(inf)
        elif b:
            X = data[[q - 1 for q, _ in b]].copy()
            y = np.array([a / 2. for _, a in b])
            try:
                inf.update(X, y)
            except RuntimeError:
                r = -1
            X.fill(-9)
        broken = r != 1
        parts, pred = [], []
        if not broken:
            parts = [[codes.get(float(a), -1) for a in row] for row in inf.predict_partial(data)]
            pred = [codes.get(float(a), -1) for a in inf.predict(data)]
        steps.append(dict(op=o['op'], b=b, r=r, parts=parts, pred=pred))
    return dict(k=k, pool=pool, steps=steps)
