"""Version space learners and the convex body they sample from: P22 (spec/VersionSpace.tla)."""
PROPS = ['P22']
TRACE = 'VersionSpaceTrace'
SCRIPT_TIMEOUT = 60


def generate(ctx):
    q = ctx.quick
    for d, c, rows in ([(2, 2, 2)] if q else [(2, 2, 3), (3, 1, 3)]):
        ctx.model('VersionSpaceMC', 'INIT Init\nNEXT Next\nCONSTANTS Dim = {} MaxC = {} Rows = {} Depth = 1\nINVARIANT ForcedSound Convex Cone\nPROPERTY Shrinks\n'.format(d, c, rows))
    n, depth = (500, 14) if q else (8000, 18)
    out = ctx.model('VersionSpaceMC', 'INIT SimInit\nNEXT SimNext\nCONSTANTS Dim = 1 MaxC = 1 Rows = 1 Depth = {}\nINVARIANT SimExport\n'.format(depth),
                    simulate=(n, depth + 2)).printed('SCRIPT')
    return [dict(s['s'], ops=s['ops'], variant=j + 13 * ctx.seed) for j, s in enumerate(out) if s['s']['pool']]


def nontrivial(script, trace):
    return len(trace['steps']) > 2


def execute(script):
    import contextlib
    import io
    import itertools
    import warnings
    from fractions import Fraction
    import numpy as np
    import aideme.active_learning as al
    from aideme.active_learning.kernel import Kernel
    from aideme.active_learning.version_space.hit_and_run import HitAndRunSampler
    from aideme.active_learning.version_space.hit_and_run.hit_and_run import HitAndRunChain
    from aideme.active_learning.version_space.hit_and_run.polyhedral_cone import BoundedPolyhedralCone
    from aideme.active_learning.version_space.hit_and_run.rounding import RoundingAlgorithm
    warnings.filterwarnings('ignore')
    kind, v, o = script['kind'], script['variant'], script['opts']
    pool = np.array(script['pool'], dtype=float)
    y = np.array(script['y'], dtype=float if v % 2 else int)
    if kind == 'kernel':    # coordinates and distances which are no round numbers; points close to each other, in two separate halves
        pool = pool @ np.linalg.qr(np.random.RandomState(v).randn(pool.shape[1], pool.shape[1]))[0] * [1., .35, .1][v // 3 % 3]
        if v // 3 % 3:
            y = (pool[:, 0] > np.median(pool[:, 0])).astype(y.dtype)
    y0 = [int(a) for a in y]
    icpt = script['icpt'] == 1
    num = lambda x: int(round(float(x) * 1e6)) if abs(float(x)) < 2000 else 2000000000
    np.random.seed(v)
    rounding_options = [None, None, dict(strategy='default'), dict(sphere_cuts=True), dict(z_cut=False), dict(max_iter=4)][(v + o[6]) % 6]
    common = dict(single_chain=o[0] % 2 == 0, n_samples=[8, 3, 12, 1][o[1]], warmup=[5, 1, 30, 10][o[2]], thin=[1, 3, 1, 5][o[3]], cache_samples=o[4] % 2 == 0,
                  rounding=o[5] > 0, rounding_cache=o[7] % 2 == 0, rounding_options=rounding_options, add_intercept=icpt)


    def new_learner():
        if kind == 'linear':
            return al.LinearVersionSpace(**common)
        return (al.EntropyReductionLearner if v % 5 < 2 else al.KernelVersionSpace)(decompose=(v // 2) % 2 == 0, gamma=[None, .3, 2.][v % 3], **common)

    learner, cleared = new_learner() if kind != 'body' else None, True
    least = 1 if kind == 'linear' and script['d'] + icpt > 1 else 2    # the kernel matrix needs two rows, as an ellipsoid has no single dimension
    seen, steps, flip = [], [], False
    ROUNDINGS = [dict(), dict(strategy='default'), dict(sphere_cuts=True), dict(z_cut=False), dict(max_iter=3), dict(sphere_cuts=True, z_cut=False)]

    def grid(E, d, step=1):
        """points of the ball in tenths and their distance in the metric of the ellipsoid"""
        P = E.L @ np.diag(E.D) @ E.L.T
        G = np.array(list(itertools.product(range(-10, 11, step), repeat=d)))
        G = G[((G / 10.) ** 2).sum(axis=1) <= 1]
        dist = np.einsum('ij,ji->i', G / 10. - E.center, np.linalg.solve(P, (G / 10. - E.center).T))
        return [[[int(a) for a in p], num(q)] for p, q in zip(G, dist)]

    def signed():
        return pool[seen] * np.where(y[seen] == 1, -1, 1).reshape(-1, 1)

    def exact(a, w):
        """sign of the dot product, without rounding"""
        s = sum(Fraction(float(b)) * Fraction(float(c)) for b, c in zip(a, w))
        return (s > 0) - (s < 0)

    def fit(s):
        nonlocal cleared
        X = pool[seen].copy()
        s['order'] = [k + 1 for k in seen]
        state = np.random.get_state()
        learner.fit(X, y[seen].copy())
        s['proba'] = [num(a) for a in learner.predict_proba(pool)]
        s['pred'] = [int(a) for a in learner.predict(pool)]
        s['again'] = [num(a) for a in learner.predict_proba(X)]    # the very array it was trained on
        if cleared:
            after = np.random.get_state()
            np.random.set_state(state)
            fresh = new_learner()
            fresh.fit(X, y[seen].copy())
            s['fresh'] = [num(a) for a in fresh.predict_proba(pool)]
            if kind == 'linear':    # the sampler itself, with these options
                np.random.set_state(state)
                opts = {k: a for k, a in common.items() if k not in ('n_samples', 'add_intercept')}
                P = np.c_[np.ones(len(pool)), pool] if icpt else pool
                W = HitAndRunSampler(**opts).sample(P[seen], y[seen].copy(), common['n_samples'])
                s['ref'] = [num(a) for a in (P @ W.T > 0).mean(axis=1)]
            elif (v // 2) % 2 == 1 and not (common['rounding'] and common['rounding_cache']):    # a linear one, over the kernel matrix
                np.random.set_state(state)
                ref = al.LinearVersionSpace(**common)
                K = Kernel.get('rbf', gamma=[None, .3, 2.][v % 3])
                ref.fit(K(X), y[seen].copy())
                s['ref'] = [num(a) for a in ref.predict_proba(K(pool, X))]
            np.random.set_state(after)
        cleared = False

    with contextlib.redirect_stdout(io.StringIO()), np.errstate(all='ignore'):
        for j, op in enumerate(script['ops']):
            s = dict(op=op['op'], b=list(op['b']), x=op['x'], v=op['v'], s=op['s'], proba=[], pred=[], r=-1, t=[], g=[], signs=[], norm2=[], moved=[], grid=[], along=0, fresh=[], ref=[], steps=0, depth=0, again=[], order=[])
            s['b'] = [int(k) for k in op['b']]
            name = op['op']
            steps.append(s)
            if name == 'clear':
                seen = []
                if op['s'] == 2:
                    y = 1 - y
                if kind != 'body':
                    learner.clear()
                    cleared = True
            elif name == 'shrink':
                seen = [k - 1 for k in op['b']]
                if kind == 'linear':    # without its old constraints the body is another one, so this is another labeling
                    learner.clear()
                    cleared = True
                if len(seen) < least:
                    s['op'], s['b'], s['s'], seen = 'clear', [], 2 if name == 'clear' and op['s'] == 2 else 1, []
                    learner.clear()
                    cleared = True
                else:
                    fit(s)
            elif name == 'grow':
                seen = seen + [k - 1 for k in op['b']]
                if kind != 'body' and len(seen) < least:
                    more = [k for k in range(len(pool)) if k not in seen][:least - len(seen)]
                    seen = seen + more
                    s['b'] = s['b'] + [k + 1 for k in more]
                if kind != 'body' and len(seen) >= least:
                    fit(s)
            if kind != 'body' and len(seen) < least:
                s['op'], s['b'], s['s'], seen = 'clear', [], 2 if name == 'clear' and op['s'] == 2 else 1, []
            if kind != 'body' or not seen or name in ('grow', 'clear'):
                continue
            A = signed()
            body = BoundedPolyhedralCone(A)
            x = np.array(op['x'], dtype=float) / op['s'] if op['x'] else None
            if name == 'inside':
                s['r'] = int(bool(body.is_inside_polytope(x)))
                both = body.is_inside_polytope(np.array([x, x, -x]))
                if [bool(a) for a in both[:2]] != [bool(s['r'])] * 2:
                    s['r'] = -2
            elif name == 'oracle':
                plane = body.get_separating_oracle(x)
                s['r'] = 0 if plane is None else 1
                if plane is not None:
                    b, g = plane
                    s['b'] = int(b) if b in (0, 1) else -1
                    s['g'] = [int(a) if a == int(a) else -99 for a in g]
                    s['along'] = int(np.allclose(g, x / np.linalg.norm(x)))
                else:
                    s['b'] = -1
            elif name == 'line':
                try:
                    t = body.intersection(x, np.array(op['v'], dtype=float))
                    s['r'], s['t'] = 1, [int(round(1000 * float(a))) for a in t]
                except RuntimeError:
                    s['r'] = 0
            elif name == 'interior':
                w = body.get_interior_point()
                s['r'] = int(all(exact(a, w) < 0 for a in A) and float(np.dot(w, w)) < 1)
            elif name == 'walk':
                opts = dict(common, rounding_options=rounding_options)
                for k in ('n_samples', 'add_intercept'):
                    opts.pop(k)
                opts.update(warmup=1, thin=1, single_chain=op['s'] % 2 == 0)
                sampler = HitAndRunSampler(**opts)
                chain = HitAndRunChain(body.get_interior_point(), body)
                x0 = chain.advance(0)
                s['r'] = 1
                for r in range(2):
                    chain.advance(3)
                    chain.reset()
                    s['r'] &= int((chain.advance(0) == x0).all())
                for r in range(2):    # the second time from the caches
                    W = sampler.sample(pool[seen], y[seen], 12)
                    s['signs'] += [[exact(a, w) for a in A] for w in W]
                    s['norm2'] += [num(np.dot(w, w)) for w in W]
                    s['moved'].append(int(len({tuple(w) for w in W.tolist()}) > 6))
                # a chain takes as many steps before and between its samples as it is told to
                plain = dict(opts, cache_samples=False, rounding=op['s'] > 2, single_chain=True)
                got = []
                for w, t, n in ((2 + j % 5, 1 + (v + j) % 4, 3), (1, 1, 2 + j % 5 + 2 * (1 + (v + j) % 4))):
                    np.random.seed(v + j)
                    got.append(HitAndRunSampler(**dict(plain, warmup=w, thin=t)).sample(pool[seen], y[seen], n))
                s['steps'] = int(np.allclose(got[0], got[1][1 + j % 5::1 + (v + j) % 4]))
                # several chains all begin at the same point
                plain.update(warmup=2 + j % 5, thin=1 + (v + j) % 4, single_chain=False, cache_samples=True, rounding_cache=False)
                several = []
                for n in ((3,), (1, 1, 1)):
                    np.random.seed(v + j)
                    for m in n:
                        state = np.random.get_state()
                        sampler2 = HitAndRunSampler(**plain)
                        np.random.seed(v)    # the first point, found in some random way, is kept in the cache
                        sampler2.sample(pool[seen], y[seen], 2)
                        np.random.set_state(state)
                        several.append(sampler2.sample(pool[seen], y[seen], m))
                s['steps'] &= int(np.allclose(several[0], np.vstack(several[1:])))
                sampler.clear()
                sampler.sample(pool[seen], 1 - y[seen], 2)
                if getattr(sampler, 'ellipsoid_cache', None) is not None and script['d'] == 2:
                    s['grid'] = grid(sampler.ellipsoid_cache, 2)
            elif name == 'round':
                E = RoundingAlgorithm(**ROUNDINGS[op['s'] - 1]).fit(body)
                s['grid'] = grid(E, script['d'], 2 if script['d'] == 3 else 1)
                two = None
                for m in (1 + v % 3, 2):
                    two = RoundingAlgorithm(**dict(ROUNDINGS[op['s'] - 1], max_iter=m)).fit(body, two)
                one = RoundingAlgorithm(**dict(ROUNDINGS[op['s'] - 1], max_iter=3 + v % 3)).fit(body)
                s['r'] = int(np.allclose(one.center, two.center) and np.allclose(one.D, two.D) and np.allclose(one.L, two.L))
                if 'max_iter' not in ROUNDINGS[op['s'] - 1]:    # how deep the center lies in the cone, in the metric of the ellipsoid
                    P = E.L @ np.diag(E.D) @ E.L.T
                    s['depth'] = int(min(-1000 * a.dot(E.center) / np.sqrt(a.dot(P).dot(a)) for a in A)) + 1
            elif name == 'lift' and len(seen) > 1 and script['d'] == 2:
                # a sampler whose body gets another dimension, as those of kernels do with each point
                sampler = HitAndRunSampler(warmup=2, thin=1, rounding_options=ROUNDINGS[op['s'] - 1])
                sampler.sample(pool[seen[:-1]], y[seen[:-1]], 2)
                B = np.c_[A, [0.] * (len(A) - 1) + [1.]]
                W = sampler.sample(-B, np.ones(len(B)), 6)
                s['signs'] = [exact(a, w) for a in B for w in W]
                if getattr(sampler, 'ellipsoid_cache', None) is not None:
                    s['grid'] = grid(sampler.ellipsoid_cache, 3)
    return dict(kind=kind, votes=common['n_samples'], d=script['d'], icpt=script['icpt'], pool=script['pool'], y=y0, steps=steps)
