"""Simulated explorations: P05-P12, and parts of P20 and P29 (spec/Explore.tla)."""
PROPS = ['P05', 'P06', 'P07', 'P08', 'P09', 'P10', 'P11', 'P12', 'P20', 'P29']
TRACE = 'ExploreTrace'

INVS = ('INVARIANT LabelsOfLabeled TrainedWhenExploring NeverTrainedBefore LimitKept TruthKnown LastPointStops ConjunctionKept FinalHasCallbacks\n'
        'PROPERTY PhaseForward\n')


def generate(ctx):
    q = ctx.quick
    ctx.model('ExploreMC', 'SPECIFICATION FairSpec\nVIEW View\nCONSTANTS MaxN = {} MaxBatch = 2 Parts = {} SimN = {{1}} MaxRuns = 1\n'.format(
        2 if q else 3, 1 if q else 2) + INVS)
    if not q:
        ctx.model('ExploreMC', 'SPECIFICATION FairSpec\nCONSTANTS MaxN = 2 MaxBatch = 1 Parts = 1 SimN = {1} MaxRuns = 1\nPROPERTY Ends\n')
    sims = [(600 if q else 8000, '1, 2, 3, 4, 5, 6, 8', 2, 40), (150 if q else 2000, '1, 3, 5, 6', 1, 20), (60 if q else 1200, '7, 9, 12, 16', 3, 80), (4 if q else 60, '150', 4, 800)]
    out = []
    for n, ns, runs, depth in sims:
        out += ctx.model('ExploreMC', 'INIT SimInit\nNEXT SimNext\nCONSTRAINT SimBound\nCONSTANTS MaxN = 2 MaxBatch = 2 Parts = 1 SimN = {{{}}} MaxRuns = {}\n'
                         'INVARIANT SimExport\n'.format(ns, runs), simulate=(n, depth)).printed('SCRIPT')
    # noise of middling probability on many points
    for k, seed in enumerate(range(3)):
        n = 150
        out.append(dict(c=dict(truth=[dict(y=(j * j + k) % 2, p=[(j * j + k) % 2]) for j in range(n)], samp=0, skip=1, maxit=-1, thr=[], crit=[], full=0,
                               noise=dict(on=1, skip=0, pct=30), cbs=[], lm=[]),
                        runs=[dict(take=-1, batches=[[j + 1 for j in range(s, s + 10)] for s in range(0, n, 10)])] * 4))
    for k, s in enumerate(out):
        s['variant'] = k + 31 * ctx.seed
    return out


def nontrivial(script, trace):
    return sum(s['k'] == 'it' for s in trace['steps']) >= 2


def execute(script):
    import copy as cp
    import random
    import numpy as np
    from aideme.active_learning import ActiveLearner
    from aideme.explore import ExplorationManager, LabeledSet, PartitionedDataset, PoolBasedExploration
    from aideme.utils import metric_logger
    from aideme.utils.convergence import max_iter_reached, metric_reached_threshold
    from aideme.utils.noise import random_noise_injector
    c, v = script['c'], script['variant']
    rng = np.random.RandomState(v)
    n = len(c['truth'])
    parts = len(c['truth'][0]['p'])
    numbering = v % 3
    ids = [list(range(n)), [5 * k - 3 for k in range(n)], [11 + 2 * k for k in range(n)]][numbering]
    if numbering:
        rng.shuffle(ids)
    ids = [int(a) for a in ids]
    sid = {a: k + 1 for k, a in enumerate(ids)}     # index -> spec id
    data = np.array([[a * 0.5, 1.0 + a] for a in ids])
    row_of = {tuple(r): k + 1 for k, r in enumerate(data.tolist())}
    ys = [t['y'] for t in c['truth']]
    ps = [t['p'] for t in c['truth']]
    ftype = float if v % 2 else int
    sub = [None, 1, 2, 5][(v // 3) % 4]
    copy = (v // 12) % 3 != 0
    generator = (v // 2) % 3 != 0
    if any(r['take'] >= 0 for r in script['runs']):
        generator = True

    def num(x):
        return int(x) if float(x) == int(x) else -9

    def rid(r):
        return row_of.get(tuple(np.asarray(r).tolist()), -7)

    def pts(index):
        return [sid.get(num(a), -8) for a in np.ravel(index).tolist()]

    events = []
    st = dict(run=0, asks=0, fits=0, lib=set())

    def ev(e, ids=(), lab=(), ts=(), x=(), m=()):
        events.append(dict(e=e, ids=list(ids), lab=list(lab), ts=list(ts), x=list(x), m=list(m)))

    def lab(ds):
        view = ds.labeled
        out = pts(view.index)
        assert out == [rid(r) for r in view.data], 'index and data of the labeled view disagree'
        return out

    def ts(ds):
        X, y = ds.training_set()
        Xp, yp = ds.training_set(get_partial=True)
        assert np.array_equal(X, Xp) and len(X) == len(y) == len(yp)
        return [[rid(r), num(a), [num(b) for b in p]] for r, a, p in zip(X, y, yp)]

    def next_batch(ds):
        batches = script['runs'][st['run']]['batches'] if st['run'] < len(script['runs']) else []
        b = batches[st['asks']] if st['asks'] < len(batches) else None
        st['asks'] += 1
        free = pts(ds.unlabeled.index)
        if b is None or not set(b) <= set(free):   # the code went on where the behaviour stops: show something legal
            b = sorted(free)[:1]
        return b

    def sampler(ds):
        b = next_batch(ds)
        ev('sam', b, lab(ds))
        b = [ids[k - 1] for k in b]
        return b if v % 2 else np.array(b)

    class Learner(ActiveLearner):
        def clear(self):
            ev('clear')
            st['fits'] = 0
            st['asks'] = 0

        def next_points_to_label(self, ds, subsample=None):
            b = next_batch(ds)
            if v % 4 == 1 and len(b) == 1:      # the way of the library
                st['best'] = b[0]
                res = super().next_points_to_label(ds, subsample)
                st['lib'].add(tuple(pts(res.index)))
                ev('nxt', pts(res.index), lab(ds), x=[subsample or 0])
                return res
            ev('nxt', b, lab(ds), x=[subsample or 0])
            return ds.from_index([ids[k - 1] for k in b])

        def fit_data(self, ds):
            st['fits'] += 1
            ev('fit', (), lab(ds), ts(ds))
            if st['asks'] in c['lm']:
                metric_logger.log_metric('lm', 10 * st['asks'])

        def rank(self, X):
            return np.array([float(rid(r) != st['best']) for r in X])

        def predict(self, X):
            return np.array([rid(r) % 2 for r in X], dtype=float)

    learner = Learner()

    def make_cb(j):
        def cb(ds, al):
            assert al is learner
            ev('cb', (), lab(ds), ts(ds), [j + 1, st['fits']])
            r = c['cbs'][j]
            r = r[st['asks'] - 1] if 0 < st['asks'] <= len(r) else []
            return dict(map(tuple, r)) if r else (None if v % 2 else {})
        return cb

    def extras(m):
        return [[k, num(a)] for k, a in m.items() if k in ('a', 'b', 'x', 'lm')]

    def watch(manager, metrics):
        ev('crit', (), lab(manager.data), x=[int(manager.iters)], m=extras(metrics))
        if st['fits'] and st['asks'] % 3 != 1:
            ls = manager.compute_user_labels_prediction()
            ev('pul', ts=[[p, num(y), 0] for p, y in zip(pts(ls.index), np.ravel(ls.labels))])
        return False

    crits = []
    if v % 5 != 0:
        crits.append(lambda m, metrics: watch(m, metrics))
    if c['maxit'] >= 0:
        crits.append(max_iter_reached(c['maxit']))
    if c['thr']:
        crits.append(metric_reached_threshold(c['thr'][0], c['thr'][1]))
    if c['crit']:
        crits.append(lambda m, metrics: m.iters in c['crit'])
    if c['full']:
        crits.append(lambda m, metrics: m.data.labeled_size >= c['full'])
    rng.shuffle(crits)
    # give the watcher the last word only if nothing stops before it: put it first
    crits.sort(key=lambda f: 0 if getattr(f, '__code__', None) and 'watch' in f.__code__.co_names else 1)
    crits = [(c_,) for c_ in crits]
    crits = [c_[0] for c_ in crits]
    cbs = [make_cb(j) for j in range(len(c['cbs']))]

    def shape(fs, how):
        if not fs:
            return [None, [], ()][how % 3]
        if len(fs) == 1 and how % 3 == 0:
            return fs[0]
        return list(fs) if how % 2 else tuple(fs)

    cb_arg, crit_arg = shape(cbs, v), shape(crits, v // 2)
    noise = random_noise_injector(c['noise']['pct'] / 100, c['noise']['skip']) if c['noise']['on'] else None
    explo = PoolBasedExploration(initial_sampler=sampler if c['samp'] else None, subsampling=sub, callback=cb_arg, callback_skip=c['skip'],
                                 convergence_criteria=crit_arg, noise_injector=noise)
    repeat = len(script['runs'])
    seeds = [[v + k for k in range(repeat)], tuple(v for k in range(repeat)), None, v][v % 4 if repeat == 1 else v % 3]
    y_arr, p_arr, i_arr = np.array(ys, dtype=ftype), np.array(ps, dtype=ftype), np.array(ids)
    plain = parts == 1 and numbering == 0 and v % 4 == 0
    labels = (list(ys) if v % 8 else np.array(ys)) if plain else LabeledSet(y_arr, p_arr if parts > 1 or v % 2 else None, i_arr if numbering or v % 3 == 0 else None)

    def lists(x):
        return np.asarray(x).tolist() if x is not None else []

    def ints(x):
        return [num(a) for a in np.ravel(np.asarray(x, dtype=float))] if x is not None and len(np.ravel(x)) else []

    def snap():
        o = {'seeds': ints(seeds) if seeds is not None else [], 'y_arr': ints(y_arr), 'p_arr': ints(p_arr), 'i_arr': ints(i_arr),
             'cb_arg': [id(f) % 1000003 for f in cb_arg] if isinstance(cb_arg, (list, tuple)) else [],
             'crit_arg': [id(f) % 1000003 for f in crit_arg] if isinstance(crit_arg, (list, tuple)) else []}
        if isinstance(labels, LabeledSet):
            o.update(ls_index=ints(labels.index), ls_labels=ints(labels.labels), ls_partial=ints(labels.partial))
        else:
            o['labels'] = ints(labels)
        if copy:
            o['data'] = [num(4 * a) for a in data.ravel()]
        return o

    before = snap()

    def rec_of(m):
        names = set(m)
        hasn = int('noisy_labels' in names)
        o = dict(phase=str(m.get('phase')), idx=pts(m['labeled_indexes']), y=[num(a) for a in m['labels']], p=[[num(b) for b in a] for a in m['partial_labels']],
                 hasn=hasn, ny=[num(a) for a in m['noisy_labels']] if hasn else [], np=[[num(b) for b in a] for a in m['noisy_partial_labels']] if hasn else [],
                 extra=extras(m), times=sorted(k for k in names if k.endswith('_time')),
                 other=sorted(k for k in names if not k.endswith('_time') and k not in (('min_rank',) if tuple(pts(m['labeled_indexes'])) in st['lib'] else ()) and k not in
                              ('phase', 'labeled_indexes', 'labels', 'partial_labels', 'noisy_labels', 'noisy_partial_labels', 'a', 'b', 'x', 'lm')))
        assert len(o['idx']) == len(o['y']) == len(o['p'])
        return o

    steps, given = [], []
    NOREC = dict(phase='', idx=[], y=[], p=[], hasn=0, ny=[], np=[], extra=[], times=[], other=[])

    def step(k, evs=(), rec=NOREC, recs=(), args=(), nargs=(), nset=(), few=()):
        steps.append(dict(k=k, ev=list(evs), rec=rec, recs=list(recs), args=list(args), nargs=list(nargs), nset=list(nset), few=list(few)))

    def drain():
        out = list(events)
        events.clear()
        return out

    runs = explo.run(data, labels, learner, repeat=repeat, seeds=seeds, copy=copy, return_generator=generator)
    if generator:
        for k, run in enumerate(runs):
            st['run'], st['asks'] = k, 0
            step('start')
            drain()
            take = script['runs'][k]['take'] if k < repeat else -1
            got = 0
            ended = False
            it = iter(run)
            while take < 0 or got < take:
                try:
                    m = next(it)
                except StopIteration:
                    ended = True
                    break
                got += 1
                given.append(m)
                step('it', drain(), rec_of(m))
                if got > n + 5:
                    raise RuntimeError('the run does not stop')
            step('end' if ended else 'quit', drain())
            if not ended and v % 2:
                it.close()
    else:
        # all runs are over: cut the calls into iterations, each beginning with a question
        evs = drain()
        cuts, pre = [], []
        for e in evs:
            if e['e'] in ('sam', 'nxt'):
                cuts.append(pre + [e])
                pre = []
            elif e['e'] in ('fit', 'cb') and cuts:
                cuts[-1] += pre + [e]
                pre = []
            else:
                pre.append(e)
        total = sum(len(r) for r in runs)
        if total != len(cuts):
            raise RuntimeError('{} records for {} iterations'.format(total, len(cuts)))
        at = 0
        for r in runs:
            step('start')
            for j, m in enumerate(r):
                given.append(m)
                cut = cuts[at]
                if j == 0:   # what precedes the reset belongs to the run before
                    cl = [q for q, e in enumerate(cut) if e['e'] == 'clear']
                    cut = cut[cl[0]:] if cl else [e for e in cut if e['e'] not in ('crit', 'pul')]
                step('it', cut, rec_of(m))
                at += 1
            step('end')
    after = snap()
    args = [[k, before[k], after[k]] for k in before]
    # the manager and the noise injector, used without the exploration
    lists = [[watch] + crits, list(cbs)]
    sizes = [[id(f) % 1000003 for f in l] for l in lists]
    ExplorationManager(PartitionedDataset(data.copy(), np.array(ids)), learner, callback=lists[1], callback_skip=c['skip'], convergence_criteria=lists[0])
    args += [['manager', a, [id(f) % 1000003 for f in l]] for a, l in zip(sizes, lists)]
    nargs = []
    if noise is not None:
        ls = LabeledSet(np.array(ys, dtype=ftype), np.array(ps, dtype=ftype), np.array(ids))
        was = [ints(ls.labels), ints(ls.partial), ints(ls.index)]
        noise(c['noise']['skip'] + 1, ls)
        nargs = [['labels', a, b] for a, b in zip(was, [ints(ls.labels), ints(ls.partial), ints(ls.index)])]
        few = list(range(n))[v % n:][:2 if c['noise']['pct'] == 100 else 1]
        few = [] if v % 4 else few
        one = LabeledSet(np.array(ys, dtype=ftype)[few], np.array(ps, dtype=ftype)[few], np.array(ids)[few])
        noisy = set()
        for _ in range(600 if few else 0):
            r = noise(c['noise']['skip'] + 1, one)
            noisy.add((tuple(pts(r.index)), tuple((num(a), tuple(map(num, b))) for a, b in zip(r.labels, r.partial))))
    step('final', nset=[[list(a), [dict(y=y, p=list(q)) for y, q in b]] for a, b in noisy] if noise is not None else [], few=[k + 1 for k in few] if noise is not None else [], recs=[rec_of(m) for m in given], args=args, nargs=nargs)
    return dict(c=c, sub=sub or 0, steps=steps)
