"""Check framework: obligations, evidence, verdicts."""
import json, os, pickle, shutil, sys, tempfile, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import prog
from prog import AnalysisError
from terms import *
from absint import *
import absint, rinterp

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Ctx:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.seed = int(os.environ.get('VERIF_SEED', '1'))
        self.obl = []           # (rule, where, ok)
        self.viol = []
        self.unknown = []
        self.analysed = set()
        self.sites = 0
        self.values = 0
        self.statements = 0
        self.assumptions = []
        self._progs = {}
        self.rules = {}
        self.extra = {}

    # ------------------------------------------------------------- loading
    def prog(self, units=None, **kw):
        key = (tuple(units) if units else None, tuple(sorted(kw.items())))
        if key not in self._progs:
            self._progs[key] = prog.load(units or prog.all_sources(), **kw)
        return self._progs[key]

    def interp(self, p, **kw):
        ip = Interp(p, **kw)
        self._ips = getattr(self, '_ips', [])
        self._ips.append(ip)
        return ip

    # --------------------------------------------------------- obligations
    def rule(self, name, text):
        self.rules[name] = text

    def ok(self, rule, where):
        self.obl.append((rule, where, True))

    def bad(self, rule, where, detail):
        self.obl.append((rule, where, False))
        self.viol.append({'rule': rule, 'where': where, 'detail': detail})
        if len(self.viol) >= 60:
            raise AnalysisError('stopped after %d violations' % len(self.viol))

    def hold(self, rule, cond, where, detail=''):
        if cond:
            self.ok(rule, where)
        else:
            self.bad(rule, where, detail)
        return cond

    def equal(self, rule, got, want, where, doms=None, pre=TRUE, trials=40, what=''):
        """value numbers agree"""
        self.values += 1
        if not isinstance(got, Term) or not isinstance(want, Term):
            raise AnalysisError('%s: %s did not reduce to a value (%r)' % (where, what, got))
        if got is want:
            self.ok(rule, where)
            return True
        if pre is not TRUE:
            if ite(pre, got, ZERO) is ite(pre, want, ZERO):
                self.ok(rule, where)
                return True
        r, w = rinterp.equal_random(got, want, doms, trials, pre)
        if r:
            self.ok(rule, where)
            return True
        if r is None:
            raise AnalysisError('%s: no admissible interpretation for %s' % (where, what))
        self.unclear(got, where)
        self.bad(rule, where, {'what': what, 'computed': show(got)[:1500], 'required': show(want)[:1500], 'distinguished_by': w})
        return False

    def unclear(self, t, where):
        """a value that contains constructs the analysis does not understand is no
        ground for a verdict"""
        for x in subterms(t):
            if x.op == 'app' and isinstance(x.args[0], str) and (x.args[0].startswith(('unk:', 'rec:', 'lambda')) or x.args[0] in ('deep', 'py')):
                raise AnalysisError('%s: value depends on a construct the analysis does not model (%s)' % (where, x.args[0]))

    def anchor(self, cond, text):
        if not cond:
            raise AnalysisError(text)

    # ------------------------------------------------------------- workers
    def parallel(self, tasks, jobs=None):
        """analyse independent parts in forked copies of this process and collect
        their obligations, in order"""
        jobs = jobs or max(1, min(6, os.cpu_count() or 1))
        tasks = list(tasks)
        done, running, nxt = {}, {}, 0
        tmp = tempfile.mkdtemp(prefix='part')
        while len(done) < len(tasks):
            while nxt < len(tasks) and len(running) < jobs:
                path = os.path.join(tmp, '%d' % nxt)
                sys.stdout.flush()
                pid = os.fork()
                if pid == 0:
                    self._part(tasks[nxt], path)
                running[pid] = (nxt, path)
                nxt += 1
            pid, status = os.wait()
            if pid not in running:
                continue
            k, path = running.pop(pid)
            try:
                with open(path, 'rb') as fh:
                    done[k] = pickle.load(fh)
                os.unlink(path)
            except (OSError, EOFError, pickle.UnpicklingError):
                done[k] = {'error': 'a part of the analysis ended with status %d' % status}
        shutil.rmtree(tmp, ignore_errors=True)
        error = None
        for k in range(len(tasks)):
            d = done[k]
            error = error or d.get('error')
            for n in ('obl', 'viol', 'unknown'):
                getattr(self, n).extend(d.get(n, ()))
            self.analysed |= d.get('fns', set())
            self.sites += d.get('sites', 0)
            self.values += d.get('values', 0)
            self.statements += d.get('stm', 0)
            self.rules.update(d.get('rules', {}))
        if error:
            raise AnalysisError(error)

    def _part(self, task, path):
        self.obl, self.viol, self.unknown, self.analysed, self.sites, self.values, self.statements, self._ips = [], [], [], set(), 0, 0, 0, []
        d = {}
        try:
            task()
        except AnalysisError as e:
            d['error'] = str(e)
        except BaseException as e:
            traceback.print_exc()
            d['error'] = '%s: %s' % (type(e).__name__, e)
        try:
            fns, stm = self.functions()
            viol = json.loads(json.dumps(self.viol, default=str))
            d.update(obl=self.obl, viol=viol, unknown=[str(u) for u in self.unknown], fns=fns, sites=self.sites, values=self.values, stm=stm, rules=self.rules)
            with open(path, 'wb') as fh:
                pickle.dump(d, fh)
        finally:
            sys.stdout.flush()
            sys.stderr.flush()
            os._exit(0)

    def functions(self):
        fns, stm = set(self.analysed), self.statements
        for ip in getattr(self, '_ips', []):
            stm += ip.nstmts
            for u in ip.visited:
                f = ip.p.fn.get(u)
                if f:
                    fns.add('%s (%s:%s)' % (f['q'], f['file'], f['ln']))
        return fns, stm

    # ------------------------------------------------------------- verdict
    def finish(self, t0, technique):
        fns, stm = self.functions()
        byrule = {}
        for r, w, k in self.obl:
            d = byrule.setdefault(r, {'rule': self.rules.get(r, r), 'instances': 0, 'discharged': 0})
            d['instances'] += 1
            d['discharged'] += 1 if k else 0
        known = known_findings(self.pid)
        listed, fresh = [], []
        for v in self.viol:
            key = '%s|%s' % (v['rule'], v['where'])
            (listed if any(k in key for k in known) else fresh).append(v)
        ev = {
            'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': 'other',
            'coverage': {
                'explanation': 'Static analysis of the current sources: %d obligations over %d functions; nothing of the analysed tree is executed.' % (len(self.obl), len(fns)),
                'obligations': len(self.obl), 'discharged': sum(1 for o in self.obl if o[2]),
                'rules': byrule, 'functions_analysed': len(fns), 'statements_analysed': stm,
                'call_sites_or_instances': self.sites, 'values_compared': self.values,
                'functions': sorted(fns)[:200],
            },
            'assumptions': self.assumptions,
            'violations': len(fresh), 'wall_s': round(time.time() - t0, 3),
        }
        ev['coverage'].update(self.extra)
        if not self.obl:
            raise AnalysisError('no rule instance was found in the analysed sources')
        os.makedirs(os.path.join(os.environ.get('VERIF_OUT', VERIF), 'evidence'), exist_ok=True)
        for v in listed:
            print('KNOWN-FINDING: property=%s %s at %s' % (self.pid, v['rule'], v['where']))
        if fresh:
            ev['violation_list'] = fresh
        with open(os.path.join(os.environ.get('VERIF_OUT', VERIF), 'evidence', self.pid + '.json'), 'w') as fh:
            json.dump(ev, fh, indent=1, default=str)
        if fresh:
            rp = os.path.join(os.environ.get('VERIF_OUT', VERIF), 'evidence', self.pid + '.violation.json')
            with open(rp, 'w') as fh:
                json.dump(fresh, fh, indent=1, default=str)
            for v in fresh[:8]:
                print('  rule %s broken at %s' % (v['rule'], v['where']))
                print('    ' + self.rules.get(v['rule'], ''))
                d = v['detail']
                print('    ' + (d if isinstance(d, str) else json.dumps(d, default=str))[:1200])
            print('VIOLATION property=%s replay=%s' % (self.pid, rp))
            return 1
        print('%s: %d obligations over %d functions hold' % (self.pid, len(self.obl), len(fns)))
        return 0


def known_findings(pid):
    p = os.path.join(VERIF, 'known-findings.txt')
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('known: property=%s ' % pid):
                out.append(l.split(' ', 2)[2].split(' :: ')[0].strip())
    return out


# -------------------------------------------------------------- conveniences

def where(f, ln=None):
    return '%s (%s:%s)' % (f['q'], f['file'], ln or f['ln'])


def vec(names, sort='n'):
    vs = [sym(n, sort) if isinstance(n, str) else n for n in names]
    return Arr('seq', None, num(len(vs)), {num(i): v for i, v in enumerate(vs)}, None)


def cell(ip, v):
    return LV(ip.new_cell(v))


def find_ctor(p, cls, nargs, pred=None):
    c = [f for f in p.fn.values() if f.get('clsq', f.get('cls')) == cls or f.get('cls') == cls]
    c = [f for f in c if f.get('ctor') and f.get('body') is not None and not f.get('copy')
         and len(f['params']) >= nargs and all('def' in q for q in f['params'][nargs:]) and (pred is None or pred(f))]
    if not c:
        raise AnalysisError('no constructor of %s taking %d arguments' % (cls, nargs))
    return c[0]


def construct(ip, cls, args, pred=None):
    f = find_ctor(ip.p, cls, len(args), pred)
    lv = cell(ip, Obj(f['cls'], None, {}))
    ip.call_function(f, [as_arg(ip, a) for a in args], lv)
    return lv


def as_arg(ip, a):
    if isinstance(a, LV):
        return a
    return cell(ip, a)


def method(p, cls, name, nargs=None, pred=None):
    c = [f for f in p.fn.values() if f.get('cls') == cls and f['name'] == name and f.get('body') is not None
         and (nargs is None or len(f['params']) == nargs) and (pred is None or pred(f))]
    if not c:
        raise AnalysisError('no definition of %s::%s found' % (cls, name))
    return c[0]


def run(ip, f, args=(), this=None):
    """analyse f as an entry point; returns (value, throw condition)"""
    ip.top_throws = []
    v = ip.call_function(f, [as_arg(ip, a) for a in args], this)
    thr = FALSE
    for pc, T, s in ip.top_throws:
        thr = b_or(thr, pc)
    return v, thr


def outcome(ip, f, args=(), this=None):
    """value number of the result, with a throw leaf where f throws"""
    st0 = ip.st
    ip.st = st0.fork(st0.pc)
    v, thr = run(ip, f, args, this)
    v = ip.term(v) if v is not None and thr is not TRUE else v
    ip.st = st0
    if thr is TRUE:
        return throw('')
    return ite(thr, throw(''), v if v is not None else mk('app', ('void',)))


def norm_throw(t):
    return lift1(lambda x: throw('') if x.op == 'throw' else x, t) or t


def enum(p, q):
    """enum constants by name: {name: term}"""
    if q not in p.enum:
        raise AnalysisError('enum %s not found' % q)
    scope = q.rsplit('::', 1)
    return {n: v for n, v in p.enum[q]}
