"""Runs the exporter on translation units of the tree under analysis and loads
the resulting type-checked program."""
import json, os, subprocess, sys, tempfile, shutil, hashlib
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
TOOL = os.path.join(HERE, 'tool', 'astx')


class AnalysisError(Exception):
    """The analysis itself cannot give an answer (missing anchor, tool failure)."""


BASE_FLAGS = ['-std=c++17', '-w', '-DNDEBUG', '-DSHOW_TIMER_INFORMATION',
              '-I' + os.path.join(HERE, 'stubs'),
              '-I' + os.path.join(REPO, 'src'), '-I' + os.path.join(REPO, 'src', 'maxwell'),
              '-isystem', '/usr/include/eigen3', '-resource-dir', '/usr/lib/llvm-18/lib/clang/18',
              '-ferror-limit=0', '-frecovery-ast', '-fno-delayed-template-parsing']
OMP_FLAGS = ['-fopenmp', '-DSEMBA_DGTD_ENABLE_OPENMP']


def all_sources():
    out = []
    for d, _, fs in os.walk(os.path.join(REPO, 'src')):
        for f in sorted(fs):
            if f.endswith('.cpp'):
                out.append(os.path.relpath(os.path.join(d, f), REPO))
    return sorted(out)


def ensure_tool():
    if not os.path.exists(TOOL):
        r = subprocess.run(['bash', os.path.join(HERE, 'tool', 'build.sh'), TOOL], capture_output=True, text=True)
        if r.returncode != 0 or not os.path.exists(TOOL):
            raise AnalysisError('cannot build exporter: ' + r.stderr[-2000:])


class Program:
    def __init__(self):
        self.fn = {}        # usr -> function
        self.by_q = {}      # qualified name -> [function]
        self.rec = {}       # canonical type string -> record
        self.rec_q = {}
        self.enum = {}      # qualified name -> [(name, value)]
        self.glob = {}      # usr -> global
        self.glob_q = {}
        self.over = {}      # usr of base method -> [usr of overriders]
        self.parse_errors = []
        self.files = set()

    def add(self, d, unit):
        base = '%s#' % unit
        for f in d['functions']:
            f['unit'] = unit
            u = f['usr']
            if u in self.fn and not (self.fn[u].get('body') is None and f.get('body') is not None):
                continue
            self.fn[u] = f
            self.files.add(f['file'])
        for r in d['records']:
            self.rec.setdefault(r['T'], r)
            self.rec_q.setdefault(r['q'], r)
        for e in d['enums']:
            self.enum.setdefault(e['q'], [(c['name'], c['v']) for c in e['consts']])
        for g in d['globals']:
            g['unit'] = unit
            self.glob.setdefault(g['usr'], g)
            self.glob_q.setdefault(g['q'], g)

    def index(self):
        self.by_q = {}
        self.over = {}
        for u, f in self.fn.items():
            self.by_q.setdefault(f['q'], []).append(f)
            for o in f.get('over', ()):
                self.over.setdefault(o, []).append(u)

    def find(self, q, body=True):
        return [f for f in self.by_q.get(q, []) if f.get('body') is not None or not body]

    def one(self, q, pred=None):
        c = [f for f in self.find(q) if pred is None or pred(f)]
        if not c:
            raise AnalysisError('anchor function %s not found in the analysed sources' % q)
        return c[0]

    def bases(self, T, seen=None):
        """transitive base type strings"""
        out = []
        r = self.rec.get(T)
        if r:
            for b in r['bases']:
                out.append(b)
                out += self.bases(b)
        return out

    def derived(self, T):
        return [t for t in self.rec if T in self.bases(t)]

    def resolve_virtual(self, usr, clsT):
        """usr of a (virtual) method, clsT dynamic class -> function implementing it"""
        cur = clsT
        seen = set()
        want = {usr}
        # all overriders transitively
        work = [usr]
        while work:
            x = work.pop()
            for y in self.over.get(x, ()):
                if y not in want:
                    want.add(y)
                    work.append(y)
        chain = [clsT] + self.bases(clsT)
        for c in chain:
            for u in want:
                f = self.fn.get(u)
                if f and f.get('cls') == c and f.get('body') is not None:
                    return f
        return None


def _run(args):
    unit, out, flags = args
    src = unit if os.path.isabs(unit) else os.path.join(REPO, unit)
    r = subprocess.run([TOOL, REPO, out, src, '--'] + flags, capture_output=True, text=True)
    return unit, out, r


def load(units, omp=True, cuda=False, extra=()):
    """units: repo-relative sources or absolute paths of driver TUs."""
    ensure_tool()
    flags = BASE_FLAGS + (OMP_FLAGS if omp else []) + list(extra)
    tmp = tempfile.mkdtemp(prefix='astx')
    p = Program()
    try:
        jobs = []
        for i, u in enumerate(units):
            src = u if os.path.isabs(u) else os.path.join(REPO, u)
            if not os.path.exists(src):
                raise AnalysisError('source file %s of the analysed tree is missing' % u)
            jobs.append((u, os.path.join(tmp, '%d.json' % i), flags))
        with ThreadPoolExecutor(max_workers=8) as ex:
            for unit, out, r in ex.map(_run, jobs):
                if not os.path.exists(out):
                    raise AnalysisError('exporter failed on %s: %s' % (unit, r.stderr[-1500:]))
                if r.returncode != 0:
                    errs = [l for l in r.stderr.splitlines() if 'error:' in l]
                    p.parse_errors += errs
                with open(out) as fh:
                    p.add(json.load(fh), unit)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    p.index()
    return p


def walk(n, f):
    """pre-order visit of every AST node (dict with a 'k')"""
    if isinstance(n, dict):
        if 'k' in n:
            f(n)
        for v in n.values():
            if isinstance(v, (dict, list)):
                walk(v, f)
    elif isinstance(n, list):
        for v in n:
            if isinstance(v, (dict, list)):
                walk(v, f)
