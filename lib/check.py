"""The check of one property: explore the specification, run its behaviours on the code, judge the recorded traces.

usage: check.py PROPERTY [--tier quick|thorough] [--replay FILE]"""
import argparse, importlib, json, os, random, re, shutil, signal, subprocess, sys, tempfile, time, traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from lib import env, tlc

with open(os.path.join(HERE, 'lib', 'registry.json')) as _f:
    REGISTRY = json.load(_f)   # property -> list of families


class Context:
    def __init__(self, prop, tier, seed, scratch):
        self.prop, self.tier, self.seed, self.scratch = prop, tier, seed, scratch
        self.states = self.transitions = 0
        self.runs = []
        self.quick = tier == 'quick'
        self.random = random.Random('{}-{}'.format(seed, prop))

    def model(self, module, cfg, workers='auto', simulate=None, env=None, timeout=700):
        """Model checks (or simulates) a module; a failure is a failure of the machinery, as no code is involved."""
        args = []
        if simulate:
            workers = 1
            args = ['-simulate', 'num={}'.format(simulate[0]), '-depth', str(simulate[1]), '-seed', str(self.seed * 7919 + 17)]
        r = tlc.run(module, cfg, self.scratch, workers=workers, args=args, env=env, timeout=timeout)
        self.states += r.distinct
        self.transitions += r.generated
        self.runs.append(dict(module=module, kind='simulation' if simulate else 'exhaustive', states=r.distinct, transitions=r.generated))
        return r


def drive(ctx, family, scripts, so, limit, workers=6, total=600):
    out = tempfile.mkdtemp(prefix='drive-', dir=ctx.scratch)
    path = os.path.join(out, 'scripts.json')
    with open(path, 'w') as f:
        json.dump(scripts, f)
    err = os.path.join(out, 'stderr')
    with open(err, 'w') as ferr:
        p = subprocess.Popen([env.PY, os.path.join(HERE, 'lib', 'driver.py'), family, path, out, so or '', str(workers), str(limit)],
                             env={**os.environ, **env.ENV, 'PYTHONPATH': ''}, stdout=subprocess.DEVNULL, stderr=ferr, cwd=out, start_new_session=True)
        try:
            rc = p.wait(total)
        except subprocess.TimeoutExpired:
            rc = 'timeout'
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        p.wait()
    res = {}
    for name in os.listdir(out):
        if name.endswith('.jsonl'):
            with open(os.path.join(out, name)) as f:
                for line in f:
                    try:
                        rec = json.loads(line)
                    except ValueError:
                        continue
                    res[rec['k']] = rec
    with open(err) as f:
        stderr = f.read()[-3000:]
    return res, rc, stderr


def judge(ctx, family, mod, traces):
    """TLC's verdicts on recorded traces: {trace number: [(step, [clauses])]}"""
    if not traces:
        return {}
    path = os.path.join(ctx.scratch, 'traces-{}.json'.format(family))
    consts = getattr(mod, 'TRACE_CONSTANTS', '')
    bad = {}
    alive = list(range(len(traces)))
    for attempt in range(3):
        with open(path, 'w') as f:
            json.dump([traces[k] for k in alive], f)
        try:
            r = tlc.run(mod.TRACE, 'SPECIFICATION Spec\n' + consts, ctx.scratch, env={'TRACES': path}, timeout=800, mem='6g')
        except tlc.TlcError as e:
            # A recorded value is outside of what the specification can even talk about: this trace cannot be one of its behaviours.
            at = re.findall(r'^/\\ t = (\d+)', str(e), re.M)
            if not at:
                raise
            step = re.findall(r'^/\\ i = (\d+)', str(e), re.M)
            if attempt == 2:   # what has been judged so far
                for x in e.result.printed('FAIL'):
                    bad.setdefault(alive[x['t'] - 1], []).append((x['i'], sorted(x['bad'])))
            k = alive.pop(int(at[-1]) - 1)
            print('trace {} cannot be judged: {}'.format(k, str(e)[:1500]))
            bad.setdefault(k, []).append((int(step[-1]) + 1 if step else 0, [ctx.prop + '.outside_of_the_specification']))
            continue
        want = sum(len(traces[k]['steps']) + 1 for k in alive)
        if r.distinct != want:
            raise tlc.TlcError('{} consumed {} of {} steps\n{}'.format(mod.TRACE, r.distinct, want, r.out[-3000:]))
        ctx.states += r.distinct
        ctx.transitions += r.generated
        ctx.runs.append(dict(module=mod.TRACE, kind='trace validation', states=r.distinct, transitions=r.generated))
        for x in r.printed('FAIL'):
            bad.setdefault(alive[x['t'] - 1], []).append((x['i'], sorted(x['bad'])))
        break
    return {k: sorted(v) for k, v in bad.items()}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--replay')
    ap.add_argument('--keep', action='store_true')
    a = ap.parse_args()
    start = time.time()
    scratch = tempfile.mkdtemp(prefix='verif-{}-'.format(a.property))
    try:
        rc = check(a, scratch, start)
    except Exception:
        traceback.print_exc()
        print('ERROR: the check of {} could not be carried out'.format(a.property))
        rc = 2
    finally:
        if not a.keep:
            shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc)


def save_replay(prop, family, script, trace, verdict, count):
    d = os.path.join(HERE, 'evidence', 'replay')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '{}-{}.json'.format(prop, count))
    with open(path, 'w') as f:
        json.dump(dict(property=prop, family=family, script=script, verdict=verdict, trace=trace), f, indent=1)
    return path


def known_findings(prop):
    try:
        with open(os.path.join(HERE, 'known_findings.json')) as f:
            return [x for x in json.load(f)['findings'] if x['property'] == prop]
    except OSError:
        return []


def check(a, scratch, start):
    prop = a.property
    ctx = Context(prop, a.tier, a.seed, scratch)
    replay = None
    if a.replay:
        with open(a.replay) as f:
            replay = json.load(f)
    families = [replay['family']] if replay else REGISTRY[prop]
    violations, samples, knowns = [], [], []
    ntraces = nsteps = nontrivial = 0
    so = None
    try:
        so = env.find_extension(scratch)
    except Exception as e:
        violations.append((None, None, None, 'the tree does not build: {}'.format(e)))
    findings = known_findings(prop)
    for family in families:
        mod = importlib.import_module('families.' + family)
        if violations:
            break
        scripts = [replay['script']] if replay else mod.generate(ctx)
        if not scripts:
            raise RuntimeError('no scripts generated for ' + family)
        t0 = time.time()
        res, rc, stderr = drive(ctx, family, scripts, so, limit=getattr(mod, 'SCRIPT_TIMEOUT', 60),
                                total=getattr(mod, 'TOTAL_TIMEOUT', 400) if ctx.quick else 6 * 3600)
        drive_s = time.time() - t0
        if not res:
            if rc == 0 or 'families' in stderr.rsplit('File', 1)[-1] and 'aideme' not in stderr.rsplit('File', 1)[-1]:
                raise RuntimeError('driver failed: {} {}'.format(rc, stderr))
            violations.append((family, None, None, 'the code cannot be run ({}): {}'.format(rc, stderr[-1500:])))
            continue
        good = []
        for k, s in enumerate(scripts):
            if k not in res:
                violations.append((family, s, None, 'the run of this script ended without a result (crash or endless loop), driver status {}'.format(rc)))
            elif 'broke' in res[k]:
                if not getattr(mod, 'broke_ok', lambda p, s, m: False)(prop, s, res[k]['broke']):
                    violations.append((family, s, None, 'the scenario broke down: ' + res[k]['broke']))
            else:
                good.append(k)
        traces = [res[k]['trace'] for k in good]
        t0 = time.time()
        verdicts = judge(ctx, family, mod, traces)
        judge_s = time.time() - t0
        ntraces += len(traces)
        nsteps += sum(len(t['steps']) for t in traces)
        nt = getattr(mod, 'nontrivial', lambda s, t: True)
        nontrivial += len({json.dumps(traces[j], sort_keys=True) for j in range(len(traces)) if nt(scripts[good[j]], traces[j])})
        ctx.runs.append(dict(kind='driver', family=family, scripts=len(scripts), driver_s=round(drive_s, 1), judge_s=round(judge_s, 1)))
        for j, v in verdicts.items():
            mine = [(i, [c for c in cl if c.split('.')[0] == prop]) for i, cl in v]
            mine = [(i, cl) for i, cl in mine if cl]
            if mine:
                listed = [x for x in findings if matches(x, scripts[good[j]], mine)]
                (knowns if listed else violations).append((family, scripts[good[j]], traces[j], listed[0]['what'] if listed else mine))
        for j in list(range(0, len(traces), max(1, len(traces) // 2)))[:2]:
            samples.append(dict(family=family, script=scripts[good[j]], first_steps=traces[j]['steps'][:2]))
    level = 'model_checking'
    cov = dict(states=ctx.states, transitions=ctx.transitions, traces_validated_against_impl=ntraces, steps_validated=nsteps,
               distinct_nontrivial=nontrivial, samples=shorten(samples), runs=ctx.runs, spec_modules=sorted({r['module'] for r in ctx.runs if 'module' in r}))
    ev = dict(property=prop, tier='thorough' if a.tier == 'thorough' else 'quick', seed=a.seed, level=level, coverage=cov,
              assumptions=['TLC evaluates the specification correctly', 'the recorder reports what the public API returned'],
              wall_s=round(time.time() - start, 2), violations=len(violations))
    if not replay:
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
    for what in sorted({k[3] for k in knowns}):
        print('KNOWN-FINDING: property={} {}'.format(prop, what))
    if violations:
        seen = set()
        for n, (family, script, trace, verdict) in enumerate(violations[:3]):
            path = save_replay(prop, family, script, trace, verdict, n)
            print('VIOLATION property={} replay={}'.format(prop, path))
            print('  ' + (verdict if isinstance(verdict, str) else json.dumps(verdict))[:1500].replace('\n', '\n  '))
        print('{} of {} traces violate {}'.format(len(violations), ntraces, prop))
        return 1
    print('OK {}: {} states, {} transitions, {} traces ({} steps) of the real code validated, {} nontrivial, {:.1f} s'.format(
        prop, ctx.states, ctx.transitions, ntraces, nsteps, nontrivial, time.time() - start))
    return 0


def matches(finding, script, mine):
    return finding.get('key') == script.get('key') and {c for _, cl in mine for c in cl} <= set(finding['clauses'])


def shorten(x):
    s = json.dumps(x)
    return x if len(s) < 20000 else [s[:6000] + ' ...']


if __name__ == '__main__':
    main()
