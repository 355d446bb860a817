"""Manual sessions: P13 (spec/Cli.tla)."""
import re
PROPS = ['P13']
TRACE = 'CliTrace'
SCRIPT_TIMEOUT = 20


def generate(ctx):
    q = ctx.quick
    ctx.model('CliMC', 'INIT Init\nNEXT Next\nCONSTANTS N = {} MaxIt = {} MaxLen = {} SimN = 1 Depth = 1\n'
              'INVARIANT ShownUnlabeled LabelsAreAnswers SplitRight\nPROPERTY Kept OneByOne StopsForGood\n'.format(2 if q else 3, 0 if q else 2, 3 if q else 4))
    n, depth = (600, 16) if q else (8000, 24)
    out = ctx.model('CliMC', 'INIT SimInit\nNEXT SimNext\nCONSTANTS N = 1 MaxIt = 0 MaxLen = 1 SimN = {} Depth = {}\nINVARIANT SimExport\n'.format(7 if q else 12, depth),
                    simulate=(n, depth + 2)).printed('SCRIPT')
    return [dict(s['s'], ops=s['ops'], variant=k + 31 * ctx.seed) for k, s in enumerate(out)]


def nontrivial(script, trace):
    return sum(s['q'] == 'label' for s in trace['steps']) > 1


class NoMoreAnswers(Exception):
    pass


def execute(script):
    import builtins
    import contextlib
    import io
    import numpy as np
    from aideme.active_learning import ActiveLearner
    from aideme.explore.command_line_explore import CommandLineExploration
    v, n = script['variant'], script['n']
    np.random.seed(v)
    X = np.array([[float(10 * k + 3), float(k * k % 7) + .5] for k in range(1, n + 1)])
    ev, steps = [], []
    of = lambda A: [int(round((r[0] - 3) / 10)) for r in np.atleast_2d(A)]

    class Learner(ActiveLearner):
        def fit(self, A, y):
            ev.append(dict(e='fit', p=[[k, int(b) if b in (0, 1) else -1] for k, b in zip(of(A), y)], sub=-1))

        def next_points_to_label(self, data, subsample=None):
            res = data.unlabeled.sample(script['size'])
            ev.append(dict(e='pick', p=of(res.data), sub=subsample or 0))
            return res

    def sampler(data):
        res = data.unlabeled.sample(script['size'])
        ev.append(dict(e='pick', p=of(res.data), sub=-1))
        return [int(a) for a in res.index]

    session = CommandLineExploration(sampler if script['samp'] else None, subsampling=script['sub'] or None,
                                     convergence_criteria=(lambda man, metrics: man.iters >= script['maxit']) if script['maxit'] else None)
    out = io.StringIO()
    ops = list(script['ops'])
    state = dict(conts=0)
    from_end = [0]

    def ask(prompt=''):
        out.write(str(prompt))
        text = out.getvalue()[from_end[0]:]
        from_end[0] = len(out.getvalue())
        found = re.findall(r'\[\[[^\]]*\](?:,\s*\[[^\]]*\])*\]', text)
        pts = [int(round((float(r.split(',')[0]) - 3) / 10)) for r in re.findall(r'\[+([^\[\]]*)\]', found[-1])] if found else []
        q = 'label' if found else 'cont'
        if not ops:
            raise NoMoreAnswers(q, pts)
        o = ops.pop(0)
        ans = ''.join(o['s'])
        if o['op'] == 'good' or o['op'] == 'fit' and q == 'label':
            if q == 'label':
                ans = ''.join(script['good'][len(pts) - 1])
                if len(steps) % 2:
                    ans = ans.translate({48: 49, 49: 48})
            else:
                state['conts'] += 1
                ans = 'n' if script['stop'] and state['conts'] > script['stop'] else 'y'
        elif o['op'] == 'fit':
            ans = 'y'
        steps.append(dict(q=q, pts=pts, ans=list(ans), ev=list(ev)))
        del ev[:]
        return ans

    keep, builtins.input = builtins.input, ask
    try:
        with contextlib.redirect_stdout(out):
            session.run(X, Learner())
        steps.append(dict(q='end', pts=[], ans=[], ev=list(ev)))
    except NoMoreAnswers as e:
        steps.append(dict(q='cut', pts=e.args[1], ans=[], ev=list(ev)))
    finally:
        builtins.input = keep
    return dict(n=n, maxit=script['maxit'], samp=script['samp'], sub=script['sub'], steps=steps)
