"""The metric logger: P31 (spec/Logger.tla)."""
PROPS = ['P31']
TRACE = 'LoggerTrace'
SCRIPT_TIMEOUT = 20


def generate(ctx):
    q = ctx.quick
    ctx.model('LoggerMC', 'INIT Init\nNEXT Next\nCONSTRAINT Bound\nCONSTANTS MaxV = {} MaxLen = {} MaxHeld = {} Depth = 1\nINVARIANT OneIsOne FreshShowTheLog\n'
              'PROPERTY StaleNeverChange OthersUnaffected\n'.format(1, 2, 1 if q else 2))
    n, depth = (800, 20) if q else (20000, 30)
    out = ctx.model('LoggerMC', 'INIT Init\nNEXT SimNext\nCONSTANTS MaxV = 1 MaxLen = 1 MaxHeld = 1 Depth = {}\nINVARIANT SimExport\n'.format(depth),
                    simulate=(n, depth + 1)).printed('SCRIPT')
    return [dict(s, variant=j + ctx.seed) for j, s in enumerate(out)]


def nontrivial(script, trace):
    return any(s['held'] for s in trace['steps'])


def execute(script):
    import numpy as np
    from aideme.utils import metric_logger as ml
    ml.flush()
    v = script['variant']
    held, steps = [], []
    # one object per number: plain, or an array
    values = [np.array([n]) if v % 3 == 1 else n for n in range(10)]

    def dump(d):
        d = {k: [float(np.ravel(a)[0]) for a in x] if isinstance(x, list) else float(np.ravel(x)[0]) for k, x in d.items()}
        return [[k, 'list' if isinstance(x, list) else 'one', [0 if k.endswith('_time') and 0 <= a < 1 else int(a) if a == int(a) else -9 for a in (x if isinstance(x, list) else [x])]]
                for k, x in d.items()]
    for j, o in enumerate(script['ops']):
        op, opt, refused = o['op'], o['o'], 0
        spelled = [opt, opt.upper(), opt.capitalize()][(v + j) % 3]
        keys = [k for k, _ in o['kvs']]
        # left open: adding to a list, appending to a number
        now = ml.get_metrics()
        isl = {k for k, x in now.items() if isinstance(x, list)}
        if any(opt == 'sum' and k in isl or opt == 'append' and k in now and k not in isl for k in keys):
            op = 'skip'
        if op == 'flush':
            ml.flush()
        elif op == 'hold':
            held.append(ml.get_metrics())
        elif op == 'timed':
            k = keys[0]

            @ml.log_execution_time(k, on_duplicates=spelled)
            def f(a, b=2):
                """doc"""
                return a + b
            assert f(1, b=4) == 5 and f.__name__ == 'f'
        elif op != 'skip':
            try:
                if op == 'logs':
                    ml.log_metrics({k: values[n] for k, n in o['kvs']}, on_duplicates=spelled)
                elif opt == 'overwrite' and v % 2:
                    ml.log_metric(keys[0], values[o['kvs'][0][1]])
                else:
                    ml.log_metric(keys[0], values[o['kvs'][0][1]], on_duplicates=spelled)
            except ValueError:
                refused = 1
        steps.append(dict(op=op, kvs=o['kvs'], o=opt, refused=refused, now=dump(ml.get_metrics()), held=[dump(h) for h in held]))
    return dict(steps=steps)
