"""Runs the scripts of a family against the real code, in several forked workers.

usage: driver.py FAMILY SCRIPTS.json OUTDIR SO WORKERS SCRIPT_TIMEOUT
Writes OUTDIR/w<k>.jsonl, one line {"k": script, "trace": ...} or {"k": script, "broke": message} per script."""
import importlib, json, os, signal, sys, traceback

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib import env


class Timeout(BaseException):
    pass


def on_alarm(*_):
    raise Timeout()


def main():
    family, scripts, out, so, workers, limit = sys.argv[1:7]
    with open(scripts) as f:
        scripts = json.load(f)
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    env.activate(so or None)
    mod = importlib.import_module('families.' + family)
    import aideme   # fails here if the tree cannot be imported
    workers = max(1, min(int(workers), len(scripts)))
    pids = []
    for w in range(workers):
        pid = os.fork()
        if pid == 0:
            try:
                work(mod, scripts, range(w, len(scripts), workers), os.path.join(out, 'w%d.jsonl' % w), float(limit))
            finally:
                os._exit(0)
        pids.append(pid)
    for pid in pids:
        os.waitpid(pid, 0)


def work(mod, scripts, ks, path, limit):
    signal.signal(signal.SIGALRM, on_alarm)
    with open(path, 'w') as f:
        for k in ks:
            signal.setitimer(signal.ITIMER_REAL, scripts[k].get('limit', limit))
            try:
                rec = dict(k=k, trace=mod.execute(scripts[k]))
                line = json.dumps(rec)
            except Timeout:
                line = json.dumps(dict(k=k, broke='no result within {} s: {}'.format(scripts[k].get('limit', limit), traceback.format_exc(limit=-4))))
            except Exception:
                line = json.dumps(dict(k=k, broke=traceback.format_exc(limit=-6)))
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
            f.write(line + '\n')
            f.flush()


main()
