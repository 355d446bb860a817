"""Optimizers and mini-batches: P26, P27 (spec/Optim.tla)."""
PROPS = ['P26', 'P27']
TRACE = 'OptimTrace'
SCRIPT_TIMEOUT = 60


def generate(ctx):
    q = ctx.quick
    for n, b, r in ([(4, 2, 2), (3, 2, 3)] if q else [(4, 2, 2), (5, 2, 2), (4, 3, 3), (3, 2, 4), (4, 1, 2)]):
        ctx.model('OptimMC', 'INIT Init\nNEXT Next\nCONSTRAINT Bound\nCONSTANTS N = {} B = {} Rounds = {} Kinds = {{}}\n'
                  'INVARIANT Even EvenAtTheEnd OneCallEach\nPROPERTY StopsOnce\n'.format(n, b, r))
    kind, num = ('"batch"', 700 if q else 10000) if ctx.prop == 'P26' else ('"optim"', 1200 if q else 20000)
    out = ctx.model('OptimMC', 'INIT SimInit\nNEXT SimNext\nCONSTANTS N = 1 B = 1 Rounds = 1 Kinds = {}\nINVARIANT SimExport\n'.format(kind),
                    simulate=(num, 2)).printed('SCRIPT')
    return [dict(s, variant=j + 7 * ctx.seed) for j, s in enumerate(out)]


def nontrivial(script, trace):
    return len(trace['steps']) > 4


def execute(script):
    import warnings
    import numpy as np
    from aideme.active_learning.factorization import optimization as opt
    from aideme.active_learning.factorization.linear import LinearFactorizationLearner
    from aideme.active_learning.factorization.penalty import L1Penalty, PenaltyTerm
    warnings.filterwarnings('ignore')
    v = script['variant']
    np.random.seed(v)
    steps = []
    if 'o' not in script:
        return batches(script, v, np, opt, LinearFactorizationLearner, L1Penalty, PenaltyTerm)
    o = script['o']
    if o['kind'] == 'bfgs':
        return dict(script, steps=bfgs(script, o, np, opt))
    unit = lambda a: [int(np.clip(round(4096 * float(z)), -2 ** 30, 2 ** 30)) if z == z else 2 ** 30 for z in np.ravel(a)]
    run = {}

    def grad(x):
        """a function of the point"""
        h = int(np.abs(np.round(np.ravel(x) * 256)).dot(np.arange(1, x.size + 1)))
        return np.array(run['grads'][h % len(run['grads'])], dtype=float).reshape(x.shape)

    def value(x):
        x = np.ravel(x)
        if o['kind'] == 'line':
            return float(x.dot(x * o['a'])) / 2
        return float(np.cos(x * np.arange(1, x.size + 1)).sum())

    def called(x):
        g = grad(x)
        run['calls'].append(dict(x=unit(x), g=[int(a) for a in g.ravel()]))
        return g

    def callback(x):
        run['xs'].append((x, x.copy(), run['calls']))
        run['calls'] = []

    def proximal(cls, **kw):
        res = cls(penalty_term=L1Penalty(o['lam'] / 2), **kw)
        res.remove_bias_column = o['bias'] == 1
        return res
    args = dict(step_size=1 / o['den'], adapt_step_size=o['sched'] != 'fixed', adapt_every=o['ae'], **({'power': o['p']} if o['p'] else {}), exp_decay=o['dn'] / 4 if o['sched'] == 'exp' else 0,
                gtol=o['gt'] / 2, rel_tol=1 / o['rq'] if o['rq'] else 0, max_iter=o['max'], callback=callback, verbose=v % 5 == 0)
    make = dict(gd=lambda: opt.GradientDescent(momentum=o['mom'] / 4, **args), noisy=lambda: opt.NoisyGradientDescent(**args),
                adam=lambda: opt.Adam(beta1=o['mom'] / 4, beta2=o['b2'] / 4, **({'epsilon': float(o['eps'])} if o['eps'] else {}), **args), prox=lambda: proximal(opt.ProximalGradientDescent, **args),
                fista=lambda: proximal(opt.FISTA, **args), line=lambda: opt.GradientDescent(momentum=o['mom'] / 4, **dict(args, step_size=None)))
    optimizer = make[o['kind']]()
    for r, given in enumerate(script['runs']):
        run.update(grads=given['grads'], xs=[], calls=[])
        x0 = np.array(given['x0'], dtype=float).reshape(o['rows'], -1)
        keep = x0.copy()
        steps.append(dict(op='begin'))
        res = optimizer.minimize(x0, value, called)
        pg = []
        for ref, x, calls in run['xs']:
            g = [int(a) for a in grad(x).ravel()]
            steps.append(dict(op='x', r=r + 1, x=unit(x), sign=[int(a) for a in np.sign(x).ravel()], g=g, pg=pg, calls=calls))
            pg = g
        last = run['xs'][-1][1] if run['xs'] else None
        steps.append(dict(op='end', it=int(res.it), success=int(bool(res.success)), last=int(last is not None and np.array_equal(last, res.x)),
                          fun=int(abs(res.fun - value(res.x)) < 1e-9), same=int(np.array_equal(x0, keep)),
                          kept=int(all(np.array_equal(a, b) for a, b, _ in run['xs']))))
    return dict(script, steps=steps)


def bfgs(script, o, np, opt):
    steps, run = [], {}
    unit = lambda a: [int(np.clip(round(4096 * float(z)), -2 ** 30, 2 ** 30)) if z == z else 2 ** 30 for z in np.ravel(a)]
    a, c = np.array(o['a'], dtype=float), np.array(o['c'], dtype=float)
    value = lambda x: float((a * (np.ravel(x) - c) ** 2).sum() / 2)

    def grad(x):
        run['points'].append(np.array(x, dtype=float).ravel())
        return (a * (np.ravel(x) - c)).reshape(o['rows'], -1)
    optimizer = opt.BFGS(gtol=o['gt'] / 16, max_iter=o['max'] or None, callback=lambda x: run['xs'].append(np.array(x).ravel()))
    for r, given in enumerate(script['runs']):
        run.update(points=[], xs=[])
        x0 = np.array(given['x0'], dtype=float)
        if (script['variant'] + r) % 3:
            x0 = x0.reshape(o['rows'], -1)
        keep = x0.copy()
        steps.append(dict(op='begin'))
        res = optimizer.minimize(x0, value, grad)
        xs = run['points'][:1] + run['xs']
        for x in xs:
            steps.append(dict(op='bx', r=r + 1, x=unit(x)))
        steps.append(dict(op='bend', it=int(res.nit), success=int(bool(res.success)), last=int(np.array_equal(xs[-1], np.ravel(res.x))),
                          fun=int(abs(res.fun - value(res.x)) < 1e-9), same=int(np.array_equal(x0, keep))))
    return steps


def batches(script, v, np, opt, Learner, L1Penalty, PenaltyTerm):
    n, K, steps, grads = script['n'], script['k'], [], []
    kind = script['opt']
    args = dict(batch_size=script['b'] or None, step_size=1e-7, gtol=0, max_iter=script['max'])
    cls = dict(gd=opt.GradientDescent, noisy=opt.NoisyGradientDescent, adam=opt.Adam, prox=opt.ProximalGradientDescent, fista=opt.FISTA)[kind]

    class Watched(cls):
        def minimize(self, x0, func, grad):
            def called(x):
                g = grad(x)
                grads.append(np.array(g))
                return g
            return super().minimize(x0, func, called)
    proximal = kind in ('prox', 'fista')

    class Steep(L1Penalty if proximal else PenaltyTerm):
        """its gradient is added to that of a batch, but for proximal algorithms"""
        def loss(self, x):
            return 0.

        def grad(self, x):
            return np.full(x.shape, 7.)
    penalty = Steep(1e-9) if proximal or v % 2 else None
    extra = 7. if v % 2 and not proximal else 0.
    learner = Learner(Watched(**args), penalty, add_bias=script['bias'] == 1)
    X, y = np.eye(n), np.array(script['y'], dtype=float)
    for _ in range(script['fits']):
        steps.append(dict(op='fit'))
        del grads[:]
        learner.fit(X, y, K, x0=np.zeros((K, n + script['bias'])))
        for g in grads:
            g = g.reshape(K, -1)
            b, g = g[:, n:], g[:, :n] - extra
            size = int((np.abs(g[0]) > 1e-4).sum())
            c = []
            for e in range(n):
                a = g[0, e] * 12 * size
                c.append(int(round(a)) if abs(a - round(a)) < .01 and abs(g[:, e] - g[0, e]).max() < 1e-4 else 99)
            a = 12 * size * b[0, 0] if b.size else 0.
            steps.append(dict(op='grad', c=c, b=int(round(a)) if abs(a - round(a)) < .01 and (b.size == 0 or abs(b - b[0]).max() < 1e-4) else 99))
    return dict(script, steps=steps)
