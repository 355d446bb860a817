"""Environment of the code under test: imports aideme from /repo's current working tree.

The Cython extension is taken from the build area when that was built from the very sources of the tree, and is
otherwise compiled into a scratch directory. Nothing is ever written below /repo or /opt/vp."""
import glob, hashlib, importlib.machinery, importlib.util, os, shutil, subprocess, sys, tempfile

REPO = os.environ.get('VERIF_REPO', '/repo')
PY = '/opt/venv/bin/python'
EXT_REL = 'aideme/active_learning/factorization'
EXT_NAME = 'aideme.active_learning.factorization.utils'
ENV = {'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONHASHSEED': '0', 'OMP_NUM_THREADS': '1', 'OPENBLAS_NUM_THREADS': '1',
       'MKL_NUM_THREADS': '1', 'PYTHONWARNINGS': 'ignore'}


def find_extension(scratch):
    """Path of a shared object built from the utils.pyx of the tree (or None when there is no such source file)."""
    pyx = os.path.join(REPO, EXT_REL, 'utils.pyx')
    if not os.path.exists(pyx):
        return None
    stage = '/opt/vp/ext-build'
    try:
        data = b''.join(open(os.path.join(REPO, f), 'rb').read() for f in ('setup.py', 'README.md', EXT_REL + '/utils.pyx'))
        with open(stage + '/stamp') as f:
            stamp = f.read().strip()
        sos = glob.glob(os.path.join(stage, EXT_REL, 'utils.*.so'))
        # the stamp is the output of sha256sum
        if sos and stamp.split()[0] == hashlib.sha256(data).hexdigest():
            return sos[0]
    except OSError:
        pass
    out = os.path.join(scratch, 'ext')
    os.makedirs(os.path.join(out, EXT_REL), exist_ok=True)
    for f in ('setup.py', 'README.md', EXT_REL + '/utils.pyx'):
        shutil.copy(os.path.join(REPO, f), os.path.join(out, f))
    r = subprocess.run([PY, 'setup.py', '-q', 'build_ext', '--inplace', '--use-cython'], cwd=out,
                       env={**os.environ, **ENV}, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    sos = glob.glob(os.path.join(out, EXT_REL, 'utils.*.so'))
    if r.returncode or not sos:
        raise RuntimeError('building the Cython extension failed:\n' + r.stdout[-3000:])
    return sos[0]


class _Finder:
    def __init__(self, so):
        self.so = so

    def find_spec(self, name, path=None, target=None):
        if name == EXT_NAME and self.so:
            loader = importlib.machinery.ExtensionFileLoader(name, self.so)
            return importlib.util.spec_from_file_location(name, self.so, loader=loader)
        return None


def activate(so):
    """Makes `import aideme` import /repo's tree in this process."""
    sys.dont_write_bytecode = True
    sys.path.insert(0, REPO)
    sys.meta_path.insert(0, _Finder(so))
    import warnings
    warnings.filterwarnings('ignore')
