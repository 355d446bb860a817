"""Runs TLC and reads what it prints."""
import json, os, re, shutil, subprocess, tempfile

JAR = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec')


class TlcError(Exception):
    pass


class Result:
    def __init__(self, out, rc):
        self.out, self.rc = out, rc
        m = re.findall(r'^(\d[\d,]*) states generated, (\d[\d,]*) distinct states found', out, re.M)
        self.generated, self.distinct = (int(x.replace(',', '')) for x in m[-1]) if m else (0, 0)
        m = re.findall(r'The number of states generated: (\d+)', out)
        if m:
            self.generated = int(m[-1])

    def printed(self, tag):
        """Values printed by PrintT(<<"tag", ...>>) as raw text, and by PrintT("tag " \\o ToJson(x)) as JSON."""
        res = []
        for line in self.out.splitlines():
            if line.startswith('"' + tag + ' '):
                res.append(json.loads(json.loads(line)[len(tag) + 1:]))
        return res


def run(module, cfg_text, scratch, name=None, env=None, workers='auto', args=(), timeout=800, mem='4g', ok_codes=(0,)):
    """Model checks spec/<module>.tla under the given configuration text."""
    work = tempfile.mkdtemp(prefix='tlc-', dir=scratch)
    try:
        name = name or module
        cfg = os.path.join(work, name + '.cfg')
        with open(cfg, 'w') as f:
            f.write(cfg_text)
        cmd = ['java', '-XX:+UseParallelGC', '-XX:ParallelGCThreads=4', '-Xmx' + mem, '-Xss64m', '-Djava.io.tmpdir=' + work, '-DTLA-Library=' + SPEC, '-cp', JAR, 'tlc2.TLC',
               '-metadir', work, '-noGenerateSpecTE', '-nowarning', '-deadlock', '-workers', str(workers), '-config', cfg, *args,
               os.path.join(SPEC, module + '.tla')]
        try:
            p = subprocess.run(cmd, cwd=work, env={**os.environ, 'JAVA_TOOL_OPTIONS': '', **(env or {})}, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired as e:
            raise TlcError('TLC timed out on {} after {} s'.format(module, timeout))
        out = p.stdout.decode('utf8', 'replace')
        if p.returncode not in ok_codes:
            said = out[max(0, out.find('Semantic errors' if p.returncode == 150 else 'Error:')):]
            said = '\n'.join(l for l in said.splitlines() if not l.startswith('"'))   # without what specifications print
            e = TlcError('TLC failed on {} (exit {}):\n{}'.format(module, p.returncode, said[:5000]))
            e.result = Result(out, p.returncode)
            raise e
        return Result(out, p.returncode)
    finally:
        shutil.rmtree(work, ignore_errors=True)
