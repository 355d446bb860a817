"""Penalties: P36 (spec/Penalty.tla)."""
PROPS = ['P36']
TRACE = 'PenaltyTrace'
SCRIPT_TIMEOUT = 30


def generate(ctx):
    q = ctx.quick
    for rows, cols, bound in ([(1, 2, 2), (2, 1, 1)] if q else [(1, 2, 3), (1, 3, 1), (2, 2, 1)]):
        ctx.model('PenaltyMC', 'INIT Init\nNEXT Next\nCONSTANTS Rows = {} Cols = {} Bound = {} Depth = 1\n'
                  'INVARIANT ProxIsBest ProxIsOptimal SubgradientsBound OthersDoNot LossAgrees\nCHECK_DEADLOCK FALSE\n'.format(rows, cols, bound))
    out = ctx.model('PenaltyMC', 'INIT SimInit\nNEXT SimNext\nCONSTANTS Rows = 1 Cols = 1 Bound = 1 Depth = {}\nINVARIANT SimExport\n'.format(6 if q else 8),
                    simulate=(600 if q else 12000, 2)).printed('SCRIPT')
    return [dict(s, variant=j + 13 * ctx.seed) for j, s in enumerate(out)]


def nontrivial(script, trace):
    return any(s['op'] != 'loss' for s in trace['steps'])


def execute(script):
    import warnings
    import numpy as np
    from aideme.active_learning.factorization import penalty as pen
    from aideme.active_learning.factorization.linear import LinearFactorizationLearner
    from aideme.active_learning.factorization.optimization import FISTA, ProximalGradientDescent
    warnings.filterwarnings('ignore')
    v, p = script['variant'], script['p']
    groups = [[c - 1 for c in g] for g in p['groups']] or None
    a, b, kind = p['a'] / 4, p['b'] / 4, p['kind']
    later = v % 2 == 1
    given = None if later else groups
    term = dict(l1=lambda: pen.L1Penalty(a), l2=lambda: pen.L2Penalty(a), inter=lambda: pen.InteractionPenalty(a), huber=lambda: pen.HuberPenalty(a, p['d'] / 4),
                l2sqrt=lambda: pen.L2SqrtPenalty(a, given), sgl=lambda: pen.SparseGroupLassoPenalty(a, b, given))[kind]()
    if later and kind in ('l1', 'l2', 'inter', 'l2sqrt'):
        term.penalty = 3 * a
        assert term.penalty == 3 * a
        term.penalty = a
    attached = script['attach'] == 1 and kind in ('l1', 'l2', 'l2sqrt', 'sgl')
    learner = LinearFactorizationLearner((FISTA if v % 3 else ProximalGradientDescent)(step_size=1), term) if attached else None
    if later and kind in ('l2sqrt', 'sgl'):
        if v % 4 == 1:
            other = [[0], list(range(1, script['cols']))] if script['cols'] > 1 else None
            term.groups = other
        if attached:
            learner.feature_groups = groups
        else:
            term.groups = groups
    units = lambda m, shape: [[int(round(1024 * float(z))) if abs(z) < 1e5 else 2 ** 30 for z in row] for row in np.broadcast_to(m, shape)]
    steps = []
    for op in script['ops']:
        x = np.array(op['q'], dtype=float) / 4
        keep, eta, name = x.copy(), op['eta'] / 4, op['op']
        s = dict(op=name, q=op['q'], eta=op['eta'], val=0, m=[], x=[], v=[], tiny=0, same=1)
        s['is'] = 0
        if name == 'grad' and attached:
            continue
        if name in ('prox', 'optimal', 'near') and kind in ('inter', 'huber'):
            continue
        steps.append(s)
        if name == 'loss':
            s['val'] = int(round(1024 * float(term.loss(x))))
        elif name == 'grad':
            s['m'] = units(term.grad(x), x.shape)
        elif name == 'prox':
            s['m'] = units(term.proximal(x, eta), x.shape)
        else:
            s['op'] = 'sub'
            if name == 'sub':
                w = np.array(op['v'], dtype=float) / 4
            elif name == 'own':
                w = np.broadcast_to(term.grad(x), x.shape).astype(float)
            else:
                y = term.proximal(x, eta)
                w = (x - y) / eta
                if name == 'near':
                    w[op['r'] - 1, op['c'] - 1] += op['v'][0][0] / 2
                x = y.copy()
                keep = y.copy()
            wkeep = w.copy()
            s['is'] = int(bool(term.is_subgradient(w, x, .25)))
            s.update(x=units(x, x.shape), v=units(w, x.shape), tiny=int(bool(((np.abs(x) < .06) & (x != 0)).any())), same=int(np.array_equal(w, wkeep)))
        s['same'] = int(s['same'] and np.array_equal(x, keep))
    return dict(script, steps=steps)
