"""Front end: builds the exporter, parses every C++ unit of /repo, returns the merged program."""
import glob, hashlib, json, os, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
LLVM = '/usr/lib/llvm-18'


class AnalysisBroken(Exception):
    pass


def build_exporter():
    src = os.path.join(VERIF, 'tool', 'xport.cpp')
    tag = hashlib.sha1(open(src, 'rb').read()).hexdigest()[:12]
    for d in (os.path.join(VERIF, 'build'), os.path.join(tempfile.gettempdir(), 'verif_xport_%d' % os.getuid())):
        exe = os.path.join(d, 'xport-' + tag)
        if os.access(exe, os.X_OK):
            return exe
    err = ''
    for d in (os.path.join(VERIF, 'build'), os.path.join(tempfile.gettempdir(), 'verif_xport_%d' % os.getuid())):
        exe = os.path.join(d, 'xport-' + tag)
        try:
            os.makedirs(d, exist_ok=True)
            tmp = exe + '.%d' % os.getpid()
            cmd = ['/usr/bin/g++', '-std=c++17', '-O0', '-fno-rtti', '-I' + LLVM + '/include', src, '-o', tmp,
                   LLVM + '/lib/libclang-cpp.so.18.1', LLVM + '/lib/libLLVM-18.so', '-Wl,-rpath,' + LLVM + '/lib']
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode == 0:
                os.rename(tmp, exe)
                return exe
            err = r.stdout
        except OSError as e:
            err = str(e)
    raise AnalysisBroken('cannot build the exporter: ' + err[-2000:])


def units(repo):
    fs = []
    for root, _, names in os.walk(os.path.join(repo, 'src')):
        for n in names:
            if n.endswith(('.cpp', '.cc', '.cxx')):
                fs.append(os.path.join(root, n))
    return sorted(fs)


# not part of the program: a test of code that the Python 3 harness leaves out, parsed like the rest
def numpy_inc():
    for p in ('/usr/lib/python3/dist-packages/numpy/core/include', '/usr/lib/python3/dist-packages/numpy/_core/include'):
        if os.path.isdir(p):
            return p
    return '/usr/include'


def export(repo, fs, workdir):
    exe = build_exporter()
    pyinc = sorted(glob.glob('/usr/include/python3*'))
    if not pyinc:
        raise AnalysisBroken('no Python headers')
    args = ['-xc++', '-std=c++11', '-DNDEBUG', '-w', '-resource-dir', LLVM + '/lib/clang/18', '-I' + repo + '/src', '-I' + pyinc[-1],
            '-I' + numpy_inc(), '-include', os.path.join(VERIF, 'tool', 'py2shim.h')]

    def one(i):
        out = os.path.join(workdir, '%d.json' % i)
        r = subprocess.run([exe, out, repo + '/src', fs[i], '--'] + args, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        if not os.path.exists(out):
            return fs[i], None, r.stdout
        return fs[i], json.load(open(out)), (r.stdout if r.returncode else '')
    with ThreadPoolExecutor(8) as ex:
        return list(ex.map(one, range(len(fs))))


class Program:
    """functions keyed by resolved signature; records; enums; globals."""

    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.funcs = {}
        self.statics = []
        self.recs = {}
        self.enums = {}
        self.globals = {}
        self.units = []
        self.errors = []
        self.fileline = {}
        fs = units(self.repo)
        with tempfile.TemporaryDirectory(prefix='verif_ast_') as wd:
            for f, j, err in export(self.repo, fs, wd):
                if j is None:
                    raise AnalysisBroken('cannot parse %s: %s' % (f, err[-1500:]))
                if err:
                    self.errors.append((f, err))
                self.units.append(f)
                for fn in j['funcs']:
                    fn['file'] = os.path.normpath(fn['file'])
                    fn['unit'] = f
                    key = fn['fn']
                    if fn['internal']:
                        key = fn['fn'] + '@' + fn['file']
                    fn['key'] = key
                    if key not in self.funcs or (not self.funcs[key]['implicit'] and False):
                        self.funcs[key] = fn
                for r in j['recs']:
                    r['file'] = os.path.normpath(r['file'])
                    self.recs.setdefault(r['qn'], r)
                for e in j['enums']:
                    self.enums.setdefault(e['qn'], e)
                for g in j['globals']:
                    g['file'] = os.path.normpath(g['file'])
                    q = g['v'].get('qn', g['v']['name'])
                    if q not in self.globals or 'init' in g:
                        self.globals[q] = g

    def rel(self, path):
        return os.path.relpath(path, self.repo)

    def find(self, callee, unit=None, file=None):
        """resolve a callee record to a function definition or None"""
        fn = callee['fn'] if isinstance(callee, dict) else callee
        if file is not None and fn + '@' + file in self.funcs:
            return self.funcs[fn + '@' + file]
        if fn in self.funcs:
            return self.funcs[fn]
        if unit is not None:
            k = fn + '@' + unit
            if k in self.funcs:
                return self.funcs[k]
        c = [f for f in self.funcs.values() if f['fn'] == fn]
        return c[0] if len(c) == 1 else None


if __name__ == '__main__' and '--build' in sys.argv:
    print(build_exporter())
elif __name__ == '__main__':
    import time
    t = time.time()
    p = Program()
    print(len(p.units), 'units', len(p.funcs), 'functions', len(p.recs), 'records', time.time() - t)
    for f, e in p.errors:
        print('ERR', f, e[:1500])
