"""Dual space model: P18, P19 (spec/Dsm.tla)."""
PROPS = ['P18', 'P19']
TRACE = 'DsmTrace'
SCRIPT_TIMEOUT = 20


def generate(ctx):
    q = ctx.quick
    ctx.model('DsmMC', 'INIT Init\nNEXT Next\nCONSTANTS N = 3 MaxBatch = {} MaxCache = {} SimN = 3 Depth = 1\n'
              'INVARIANT Apart InferredExact NothingInferredInvalid CacheConfirmed AskedUnknown SomethingToAsk\n'
              'PROPERTY UserLabelsKept NoNewsWhenInvalid\n'.format(1 if q else 2, 2 if q else 3))
    n, depth = (900, 10) if q else (12000, 16)
    out = ctx.model('DsmMC', 'INIT SimInit\nNEXT SimNext\nCONSTANTS N = 1 MaxBatch = 1 MaxCache = 1 SimN = {} Depth = {}\n'
                    'INVARIANT SimExport\n'.format(12 if q else 20, depth), simulate=(n, depth + 2)).printed('SCRIPT')
    scripts = [dict(s['s'], ops=s['ops'], variant=k + 17 * ctx.seed) for k, s in enumerate(out)]
    return scripts


def nontrivial(script, trace):
    return any(e['e'] == 'pick' for s in trace['steps'] for e in s['ev']) and any(s['inf'] for s in trace['steps'])


def execute(script):
    import warnings
    import numpy as np
    from aideme.active_learning import ActiveLearner
    from aideme.active_learning.dsm.base import DualSpaceModelBase
    from aideme.active_learning.dsm.dsm import DualSpaceModel, FactorizedDualSpaceModel
    from aideme.active_learning.dsm.model import PolytopeModel, PolytopeModelBase, FactorizedPolytopeModel
    from aideme.explore import LabeledSet, PartitionedDataset
    warnings.filterwarnings('ignore')
    v, n, kind = script['variant'], script['n'], script['kind']
    np.random.seed(v)
    X = np.array([[x + k / 1024., y + ((5 * k) % (n + 1)) / 1024.] for k, (x, y) in enumerate(script['xy'], 1)])
    ids = {row.tobytes(): k for k, row in enumerate(X, 1)}
    of = lambda rows: [ids[np.ascontiguousarray(r, dtype=float).tobytes()] for r in np.atleast_2d(rows)]
    idx = [3 * k + 7 if v % 2 else 50 - k for k in range(1, n + 1)]
    back = {i: k for k, i in enumerate(idx, 1)}
    flip = script['flip'] and kind != 'fact'
    final = [2 if (min(p) == 2) != flip else 0 for p in script['part']]
    codes = {0.: 0, .5: 1, 1.: 2}
    code = lambda y: [codes.get(float(a), -1) for a in y]
    rows = lambda A, y: [[a, b] for a, b in zip(of(A), code(y))] if len(A) else []
    ev = []

    class Learner(ActiveLearner):
        quiet = 0
        calls = 0

        def clear(self):
            ev.append(dict(e='clear', s=[], p=[]))

        def fit(self, A, y):
            assert len(A) == len(y)
            ev.append(dict(e='fit', s=[], p=rows(A, y)))

        def predict(self, A):
            return np.array([1. if k % 2 else 0. for k in of(A)])

        def predict_proba(self, A):
            return np.array([.25 + k / 1000. for k in of(A)])

        def rank(self, A):
            return np.array([float(script['score'][k - 1]) for k in of(A)])

        def _select_next(self, dataset):
            Learner.calls += 1
            score = self.rank(dataset.data)
            order = sorted(range(len(score)), key=lambda r: (score[r], (Learner.calls * 7 + int(dataset.index[r]) * 5) % 11))
            res = dataset[order[:script['batch']]]
            if not self.quiet:
                ev.append(dict(e='pick', s=[back[a] for a in dataset.index], p=[back[a] for a in res.index]))
            return res

        def next_points_to_label(self, data, subsample=None):
            self.quiet += 1
            res = super().next_points_to_label(data, subsample)
            self.quiet -= 1
            ev.append(dict(e='next', s=[], p=[back[a] for a in res.index]))
            return res

    class Stub(PolytopeModelBase):
        def __init__(self):
            super().__init__(False)
            self.clear()

        def clear(self):
            self.know, self.ok, self.given = np.full(n + 1, .5), True, []

        @property
        def is_valid(self):
            return self.ok

        def predict(self, A):
            return self.know[of(A)].copy() if self.ok else np.full(len(A), .5)

        def update(self, A, y):
            if not self.ok:
                raise RuntimeError('invalid')
            self.given.append(rows(A, y))
            learn = np.array([.5] + [a / 2. for a in self.op['learn']])
            out = 'ok' if script['quiet'] else self.op['out']
            if out == 'ok':
                self.know = np.where(self.know == .5, learn, self.know)
                for k, a in zip(of(A), y):
                    if self.know[k] == .5 and (k + v) % 4:
                        self.know[k] = a
                return True
            keep = np.array([(3 * k + len(steps)) % 5 < 3 for k in range(n + 1)])
            self.know = np.where(keep & (self.know != .5), self.know, learn)
            self.ok = out != 'invalid'
            return False

    layout = [0]     # of the factorized model: subspaces as they come, in reverse order, or in one

    def partials(k):
        a, b = [q / 2. for q in script['part'][k - 1]]
        return [[a, b], [b, a], [min(a, b)]][layout[0]]

    def structure(mode, other):
        return [([[0], [1]], [mode, other]), ([[1], [0]], [other, mode]), ([[0, 1]], [mode])][layout[0]]
    learner, proba = Learner(), 1. if script['always'] else .5
    mode = ['persist', 'positive', 'negative', 'persist'][v % 4]
    ref = None
    if kind == 'stub':
        dsm = DualSpaceModelBase(Stub(), learner, proba)
    elif kind == 'real':
        dsm, ref = DualSpaceModel(learner, mode=mode, sample_unknown_proba=proba), PolytopeModel(mode)
    else:
        other = ['persist', 'positive'][v // 4 % 2]
        part, modes = structure(mode, other)
        ref = FactorizedPolytopeModel(part, modes)
        if v % 3:
            dsm = FactorizedDualSpaceModel(learner, proba, partition=part, mode=modes)
        else:
            dsm = FactorizedDualSpaceModel(learner, proba)
            dsm.set_factorization_structure(partition=part, mode=modes)
    data = PartitionedDataset(X, index=np.array(idx), copy=True)
    sub = script['sub'] or None
    steps = []

    def record(op, b=(), ret=(), upd=(), conflict=0):
        known = dsm.polytope_model.predict(X)
        asked = X.copy()
        pred = code(dsm.predict(asked))
        prob = [2 if p == 1 else 0 if p == 0 else int(round((p - .25) * 1000)) + 100 if .25 < p < .3 else -1 for p in dsm.predict_proba(asked)]
        assert np.array_equal(asked, X)
        part = lambda d: [back[a] for a in d.index]
        steps.append(dict(op=op, b=[list(z) for z in b], upd=[list(u) for u in upd], conflict=conflict, valid=int(bool(dsm.polytope_model.is_valid)),
                          know=code(known), ref=code(ref.predict(X)) if ref else code(known), lab=part(data.labeled), inf=part(data.inferred),
                          unk=part(data.unknown), ev=list(ev), ret=list(ret), pred=pred, proba=prob))
        del ev[:]

    def move(b):
        lab = [final[k - 1] / 2. for k in b]
        part = [partials(k) for k in b] if kind == 'fact' else None
        data.move_to_labeled(LabeledSet(lab, partial=part, index=[idx[k - 1] for k in b]))

    def train(o, b):
        conflict = 0
        move(b)
        pol = dsm.polytope_model
        if ref and ref.is_valid:
            y = np.array([partials(k) if kind == 'fact' else final[k - 1] / 2. for k in b])
            conflict = int(not ref.update(X[[k - 1 for k in b]], y))
        if kind == 'stub':
            pol.op, pol.given = o, []
            conflict = int(pol.ok and not script['quiet'] and o['out'] != 'ok')
        dsm.fit_data(data)
        record('label', [[k, final[k - 1]] for k in b], upd=pol.given if kind == 'stub' else [], conflict=conflict)

    for o in script['ops']:
        free = {back[a] for a in data.unlabeled.index}
        b = [k for k in o['b'] if k in free]
        if o['op'] == 'clear':
            if v % 5 == 0:
                dsm.clear()
            data.clear()
            if ref:
                ref.clear()
            if kind == 'fact' and (v + len(steps)) % 3:      # another structure for the next exploration
                layout[0] = (v // 3 + len(steps)) % 3
                part, modes = structure(mode, other)
                ref = FactorizedPolytopeModel(part, modes)
                dsm.set_factorization_structure(partition=part, mode=modes if v % 2 or len(set(modes)) > 1 else modes[0])
            if v % 5:
                dsm.clear()
            record('clear')
        elif o['op'] in ('ask', 'askonly') and free:
            res = dsm.next_points_to_label(data, sub)
            ret = [back[a] for a in res.index]
            record('ask', ret=ret)
            if o['op'] == 'ask':
                train(o, [k for k in ret if k in free])
        elif o['op'] == 'label' and b:
            train(o, b)
        elif o['op'] == 'collect' and b and not any(s['op'] == 'label' for s in steps):
            move(b)
            record('collect', [[k, final[k - 1]] for k in b])
    return dict(kind=kind, n=n, sub=script['sub'], always=script['always'], steps=steps)
