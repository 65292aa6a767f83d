"""Collective communication: every process of a distributed run takes part in the same sequence.

A forward, flow- and context-sensitive dependence analysis over the typed syntax tree.  Each value carries
the reasons why it may differ between processes (its content, and separately its shape: the size or the key
set of a container).  A collective operation, or a call of anything that performs one, must not be control
dependent on such a value.  Results of all-process reductions are the same everywhere.  The analysis assumes
more than one process (a run of one process has nobody to disagree with)."""
from fw import *
import prog as prog_

PROC, NBR, DIST = 'process', 'neighbour', 'dist'   # dist: a handle to something each process holds a part of
EMPTY = frozenset()

# library operations in which every process of the communicator takes part
MPI_LOCAL = {'MPI_Comm_rank', 'MPI_Comm_size', 'MPI_Wtime', 'MPI_Initialized', 'MPI_Finalized', 'MPI_Abort',
             'MPI_Get_processor_name', 'MPI_Send', 'MPI_Recv', 'MPI_Isend', 'MPI_Irecv', 'MPI_Sendrecv',
             'MPI_Wait', 'MPI_Waitall', 'MPI_Comm_free'}
MPI_SAME = {'MPI_Allreduce': 1, 'MPI_Bcast': 0, 'MPI_Allgather': 3, 'MPI_Allgatherv': 3}   # argument that is equal everywhere afterwards
COLLECTIVE = {'mfem::ParSubMesh::CreateFromDomain', 'mfem::ParSubMesh::CreateFromBoundary',
              'mfem::ParaViewDataCollection::Save', 'mfem::ODESolver::Step', 'mfem::ParMesh::ReduceInt',
              'mfem::Mpi::Init', 'mfem::Mpi::Finalize', 'mfem::ParMesh::GetGlobalNE',
              'mfem::ParFiniteElementSpace::ParFiniteElementSpace', 'mfem::ParMesh::GetBoundingBox',
              'mfem::ParBilinearForm::ParallelAssemble'}
ITERATIVE = {'mfem::GMRESSolver', 'mfem::CGSolver', 'mfem::BiCGSTABSolver', 'mfem::IterativeSolver', 'mfem::MINRESSolver', 'mfem::FGMRESSolver'}
EXCHANGE = 'ExchangeFaceNbrData'
# queries of a mesh, space or field whose answer is the same on every process
SAME = {'Dimension', 'SpaceDimension', 'GetComm', 'FEColl', 'GetMesh', 'GetParMesh', 'FESpace', 'ParFESpace', 'GetVDim',
        'GetOrdering', 'GetElementTransformation', 'GetGlobalNE', 'GlobalTrueVSize', 'GlobalVSize', 'ReduceInt',
        'GetOrder', 'Order', 'GetElementOrder', 'GetMaxElementOrder', 'GetTypicalFE', 'GetTypicalElementTransformation',
        'attributes', 'bdr_attributes', 'GetSubMesh'}
DISTRIBUTED = ('Mesh', 'FiniteElementSpace', 'GridFunction')
NRANKS = {'mfem::Mpi::WorldSize', 'mfem::ParMesh::GetNRanks', 'mfem::ParFiniteElementSpace::GetNRanks'}
CONTAINERS = ('std::vector', 'std::map', 'std::set', 'std::unordered', 'std::array', 'std::list', 'std::deque',
              'std::multimap', 'mfem::Array', 'mfem::Vector', 'std::multiset', 'mfem::DenseMatrix', 'std::basic_string')
SHAPE_Q = {'size', 'Size', 'empty', 'begin', 'end', 'cbegin', 'cend', 'rbegin', 'rend', 'capacity', 'Width', 'Height', 'NumRows', 'NumCols'}
KEY_Q = {'find', 'count', 'contains', 'lower_bound', 'upper_bound'}
GROW = {'push_back', 'emplace_back', 'clear', 'pop_back', 'Append', 'reserve', 'push_front', 'emplace_front', 'DeleteAll'}
KEYED = {'emplace', 'insert', 'erase', 'try_emplace', 'insert_or_assign'}
RESIZE = {'resize', 'SetSize', 'assign', 'reserve'}
SERIAL = {
    'maxwell::HesthavenEvolution': 'the element-wise operator exists for one process only',
    'maxwell::EigenvalueEstimator': 'spectral analysis of a single-process run',
    'maxwell::OptimizationManager': 'spectral analysis of a single-process run',
    'maxwell::FarField': 'radar-cross-section post-processing runs as one process',
    'maxwell::RCSSurfacePostProcessor': 'radar-cross-section post-processing runs as one process',
    'maxwell::RCSManager': 'radar-cross-section post-processing runs as one process',
}
NOT_PANEL = {'maxwell::MaxwellEvolution'}      # panels use the assembled operator
PANEL = 'maxwell::SGBCWrapper'      # solves a panel over a communicator of its own process


def handle(T):
    """label of a mesh, space or field: the object is there on every process, what it holds need not be the same"""
    T = T or ''
    if 'mfem::' not in T or not any(x in T for x in ('Mesh', 'FiniteElementSpace', 'GridFunction', 'FiniteElementCollection', 'FECollection')):
        return None
    return frozenset([DIST]) if any(x in T for x in ('ParMesh', 'ParSubMesh', 'ParFiniteElementSpace', 'ParGridFunction')) else EMPTY


def bare(T):
    return (T or '').replace('const ', '').replace(' &', '').replace(' *', '').strip()


class V:
    """abstract value: content reasons, shape reasons, known truth, number-of-processes marker, alias root"""
    __slots__ = ('c', 's', 'k', 'n', 'root', 'fn')

    def __init__(self, c=EMPTY, s=EMPTY, k=None, n=False, root=None, fn=None):
        self.c, self.s, self.k, self.n, self.root, self.fn = c, s, k, n, root, fn

    def t(self):
        return (self.c | self.s) - {DIST}


CLEAN = V()


def j(*vs):
    c = s = EMPTY
    for v in vs:
        c, s = c | v.c, s | v.s
    return V(c, s)


class Summary:
    __slots__ = ('ret', 'outs', 'coll')

    def __init__(self):
        self.ret = CLEAN
        self.outs = {}
        self.coll = EMPTY      # kinds of collective performed ('all', 'exchange')


class Frame:
    def __init__(self, f, this):
        self.f, self.this = f, this
        self.env = {}
        self.pc = []           # list of (taint, text, line)
        self.ret = EMPTY       # reasons for which some process has already returned
        self.brk = EMPTY
        self.val = CLEAN
        self.coll = EMPTY
        self.alias = {}
        self.handles = {}
        self.matched = set()   # alternatives (depth in pc) performing the same operations
        self.rec = None        # (depth, operations) while alternatives are compared
        self.weak = 0          # inside alternatives whose states are not kept apart
        self.written = set()

    def ctl(self):
        t = self.ret | self.brk
        for x, _ in self.pc:
            t = t | x
        return t - {DIST}

    def when(self):
        """what decides whether an operation runs here, alternatives performing the same ones left out"""
        t = self.ret | self.brk
        for i, (x, _) in enumerate(self.pc):
            if i not in self.matched:
                t = t | x
        return t - {DIST}


class Spmd:
    def __init__(self, ctx, p):
        self.ctx, self.p = ctx, p
        self.universe = {False: {}, True: {}}     # members of the run's objects / of the objects a panel owns
        self.panel = False
        self.globs, self.world = {}, {}
        self.given = {}       # truth of what is written to the members of a panel's objects
        self.origin = {}
        self.memo, self.active = {}, set()
        self.changed = False
        self.sites, self.why = {}, {}
        self.reporting = False
        self.viol, self.visited = {}, set()

    @property
    def fields(self):
        return self.universe[self.panel]

    # ------------------------------------------------------------------ whole program
    def run(self):
        roots = self.p.find('main')
        if not roots:
            raise AnalysisError('the solver program was not found')
        for f in self.p.fn.values():          # called back by the library
            if f.get('body') is not None and f['file'].startswith('src/') and not self.serial(f) \
                    and any(o not in self.p.fn or self.p.fn[o].get('body') is None for o in f.get('over', ())):
                roots.append(f)
        for rnd in range(12):
            if rnd == 1:       # what panels are told is known now
                self.universe, self.globs, self.world, self.origin = {False: {}, True: {}}, {}, {}, {}
            self.changed = False
            self.memo, self.viol, self.sites = {}, {}, {}
            for f in roots:
                self.call(f, [self.param(f, q) for q in f['params']], CLEAN)
            if not self.changed and rnd:
                return
        raise AnalysisError('dependence analysis did not settle')

    def serial(self, f):
        c = f.get('cls') or ''
        if 'pectral' in f['name']:
            return True            # spectral analysis: one process
        return any(c == x or c.startswith(x + '::') for x in SERIAL)

    def param(self, f, q):
        """an entry point called by a library or a test: vectors hold the process's own unknowns"""
        T = bare(q['T'])
        if T in ('mfem::Vector', 'mfem::GridFunction', 'mfem::ParGridFunction'):
            return V(frozenset([PROC]), frozenset([PROC]))
        return CLEAN

    # ------------------------------------------------------------------ functions
    def call(self, f, args, this):
        if f.get('cls') == PANEL and not self.panel:
            self.panel = True
            try:
                return self.call(f, args, this)
            finally:
                self.panel = False
        key = (f['usr'], tuple((a.c, a.s, a.k, a.n) for a in args), this.c, self.panel)
        if key in self.memo:
            return self.memo[key]
        s = self.memo[key] = Summary()
        for _ in range(4):
            fr = Frame(f, this)
            for q, a in zip(f['params'], args):
                fr.env[q['id']] = V(a.c, a.s, a.k, a.n, None, a.fn)
                if handle(q['T']) is not None:
                    fr.handles[q['id']] = handle(q['T']) | (a.c & {DIST})
            old = (s.ret.c, s.ret.s, s.coll)
            for i in f.get('inits') or []:
                self.init_member(fr, i)
            if f.get('body') is not None:
                self.visited.add(f['usr'])
                self.stmt(fr, f['body'])
            s.ret = j(s.ret, fr.val)
            if fr.val.k is not None and old[0] == EMPTY:
                s.ret = V(s.ret.c, s.ret.s, fr.val.k)
            s.coll = s.coll | fr.coll
            for i, q in enumerate(f['params']):
                if q['id'] in fr.written and (q.get('ref') or q.get('t') == 'p'):
                    v = fr.env.get(q['id'], CLEAN)
                    s.outs[i] = j(s.outs.get(i, CLEAN), v)
            if (s.ret.c, s.ret.s, s.coll) == old:
                break
        return s

    def init_member(self, fr, i):
        e = i.get('e') or i.get('init')
        if e is None:
            return
        v = self.ex(fr, e)
        q = i.get('q') or i.get('field')
        if q:
            if '::' not in q:
                q = '%s::%s' % (fr.f['cls'], q)
            self.wfield(q, v, fr)

    def wfield(self, q, v, fr):
        t = fr.ctl()
        if self.panel:
            self.given.setdefault(q, set()).add(v.k)
        o = self.fields.get(q, CLEAN)
        c, s = o.c | v.c | t, o.s | v.s | t
        if (c, s) != (o.c, o.s):
            self.fields[q] = V(c, s)
            self.changed = True
            if not self.panel:
                self.origin.setdefault((q, bool((c | s) - {DIST})), (fr.f['q'], [ln for x, ln in fr.pc if x - {DIST}], sorted(v.c), sorted(v.s), sorted(fr.ret)))

    # ------------------------------------------------------------------ statements
    def block(self, fr, ss):
        for i, s in enumerate(ss):
            if s.get('k') == 'if' and s.get('b') is None and ss is (fr.f.get('body') or {}).get('b') and self.leaves(s['a']) and ss[i + 1:]:
                # the rest of the function is the other alternative
                return self.s_if(fr, dict(s, b={'k': 'block', 'b': ss[i + 1:]}), rest=True)
            self.stmt(fr, s)

    def leaves(self, s):
        while s and s.get('k') == 'block' and s['b']:
            s = s['b'][-1]
        return bool(s) and s.get('k') == 'return'

    def stmt(self, fr, s):
        if s is None:
            return
        k = s['k']
        m = getattr(self, 's_' + k, None)
        if m:
            m(fr, s)
        elif k in ('nop',):
            pass
        else:
            self.ex(fr, s)

    def s_block(self, fr, s):
        self.block(fr, s['b'])

    def s_expr(self, fr, s):
        self.ex(fr, s['e'])

    def s_decl(self, fr, s):
        for v in s['vars']:
            i = v.get('init')
            x = self.ex(fr, i) if i is not None else CLEAN
            T = v.get('T') or ''
            isref = T.endswith('&') or T.endswith('*')
            if v.get('static'):
                self.wroot(fr, ('g', v['id']), V(x.c, x.s)) if x.t() else None
                fr.alias[v['id']] = ('g', v['id'])
                continue
            t = fr.ctl()
            y = V(x.c | t, x.s | t, x.k, x.n, None, x.fn)
            fr.env[v['id']] = y
            if handle(T) is not None:
                fr.handles[v['id']] = handle(T) | (x.c & {DIST})
            if isref and x.root is not None:
                fr.alias[v['id']] = x.root
            else:
                fr.alias.pop(v['id'], None)
            for b in v.get('binds') or v.get('bind') or []:
                fr.env[b['id']] = V(y.c | y.s, y.c | y.s)

    def under(self, fr, t, text, body):
        fr.pc.append((t, text))
        body()
        fr.pc.pop()

    def merge(self, a, b):
        out = {}
        for k in set(a) | set(b):
            x, y = a.get(k), b.get(k)
            if x is None or y is None:
                out[k] = x or y
            elif x is y:
                out[k] = x
            else:
                out[k] = V(x.c | y.c, x.s | y.s, x.k if x.k == y.k else None, x.n and y.n, None, x.fn or y.fn)
        return out

    def same(self, fr, s):
        """both alternatives perform the same operations in the same order, whatever is decided inside"""
        e0, r0, b0, v0, o0 = fr.env, fr.ret, fr.brk, dict(self.viol), fr.rec
        seq, w0 = [], fr.weak
        for b in (s['a'], s.get('b')):
            fr.env, fr.ret, fr.brk, fr.rec = dict(e0), EMPTY, EMPTY, (len(fr.pc), [])
            self.stmt(fr, b)
            seq.append(fr.rec[1])
        fr.env, fr.ret, fr.brk, fr.rec, self.viol = e0, r0, b0, o0, v0
        return bool(seq[0]) and seq[0] == seq[1] and not any(x is None for x in seq[0])

    def s_if(self, fr, s, rest=False):
        if s.get('cvar'):
            self.stmt(fr, s['cvar'] if s['cvar'].get('k') else {'k': 'decl', 'vars': [s['cvar']]})
        c = self.ex(fr, s['c'])
        if c.k is None and self.noprobes(s['c']) is not None:
            c = V(k=self.noprobes(s['c']))
        if c.k is True:
            return self.stmt(fr, s['a'])
        if c.k is False:
            return self.stmt(fr, s.get('b'))
        t = c.t()
        if t:
            self.note(fr, s)
        d = len(fr.pc)
        ok = t and not self.panel and fr.rec is None and s.get('b') is not None and (rest or not self.exits(s['a']) and not self.exits(s['b'])) and self.same(fr, s)
        if ok:
            fr.matched.add(d)
        e0, r0, b0 = dict(fr.env), fr.ret, fr.brk
        self.under(fr, t, s.get('ln'), lambda: self.stmt(fr, s['a']))
        if ok and rest:
            fr.ret = r0
        e1, r1, b1 = fr.env, fr.ret, fr.brk
        fr.env, fr.ret, fr.brk = dict(e0), r0, b0
        if s.get('b') is not None:
            self.under(fr, t, s.get('ln'), lambda: self.stmt(fr, s['b']))
        fr.env = self.merge(e1, fr.env)
        fr.ret, fr.brk = fr.ret | r1, fr.brk | b1
        fr.matched.discard(d)

    def exits(self, s):
        if isinstance(s, dict):
            return s.get('k') in ('return', 'break', 'continue', 'goto') or s.get('k') != 'lambda' and any(self.exits(x) for x in s.values())
        return isinstance(s, list) and any(self.exits(x) for x in s)

    def note(self, fr, s):
        self.why[(fr.f['usr'], s.get('ln'))] = True

    def loop(self, fr, cond, inc, body, ln):
        outer = fr.brk
        for _ in range(6):
            snap = {k: (v.c, v.s, v.k) for k, v in fr.env.items()}
            e0 = dict(fr.env)
            ob = fr.brk
            t = cond() if cond else EMPTY
            self.under(fr, t, ln, lambda: (self.stmt(fr, body), inc() if inc else None))
            fr.env = self.merge(e0, fr.env)
            if snap == {k: (v.c, v.s, v.k) for k, v in fr.env.items()} and ob == fr.brk:
                break
        fr.brk = outer

    def s_for(self, fr, s):
        self.stmt(fr, s.get('init'))
        c = s.get('c')
        self.loop(fr, (lambda: self.ex(fr, c).t()) if c else None, (lambda: self.ex(fr, s['inc'])) if s.get('inc') else None,
                  s['b'], s.get('ln'))

    def s_while(self, fr, s):
        self.loop(fr, lambda: self.ex(fr, s['c']).t(), None, s['b'], s.get('ln'))

    s_do = s_while

    def s_rfor(self, fr, s):
        r = self.ex(fr, s['r'])
        if self.noprobes(s['r']) is not None:
            return
        v = s['v']

        def bind():
            for x in (v if isinstance(v, list) else [v]):
                y = V(r.c, r.c)
                fr.env[x['id']] = y
                if r.root is not None and (x.get('T') or '').endswith('&'):
                    fr.alias[x['id']] = r.root
                for b in x.get('binds') or x.get('bind') or []:
                    fr.env[b['id']] = y
            return r.s
        self.loop(fr, bind, None, s['b'], s.get('ln'))

    def s_switch(self, fr, s):
        c = self.ex(fr, s['c'])
        ob = fr.brk
        e0 = dict(fr.env)
        fr.weak += 1
        self.under(fr, c.t(), s.get('ln'), lambda: self.stmt(fr, s['b']))
        fr.weak -= 1
        fr.env = self.merge(e0, fr.env)
        fr.brk = ob

    def s_case(self, fr, s):
        self.stmt(fr, s.get('s'))

    s_default = s_case

    def s_return(self, fr, s):
        v = self.ex(fr, s['e']) if s.get('e') is not None else CLEAN
        t = fr.ctl()
        same = fr.val is CLEAN
        fr.val = V(fr.val.c | v.c | t, fr.val.s | v.s | t, v.k if same else None, v.n and same, None, v.fn)
        fr.ret = fr.ret | t

    def s_break(self, fr, s):
        fr.brk = fr.brk | fr.ctl()

    s_continue = s_break

    def s_try(self, fr, s):
        fr.weak += 1
        for k in ('b', 'body'):
            if s.get(k):
                self.stmt(fr, s[k])
        for h in s.get('handlers') or s.get('catch') or []:
            self.stmt(fr, h.get('b') or h.get('body') if isinstance(h, dict) else h)
        fr.weak -= 1

    def s_omp(self, fr, s):
        self.stmt(fr, s.get('b'))

    # ------------------------------------------------------------------ expressions
    def ex(self, fr, e):
        if e is None:
            return CLEAN
        m = getattr(self, 'e_' + e['k'], None)
        if m:
            return m(fr, e)
        vs = []
        for k, x in e.items():
            if isinstance(x, dict) and 'k' in x:
                vs.append(self.ex(fr, x))
            elif isinstance(x, list):
                vs += [self.ex(fr, y) for y in x if isinstance(y, dict) and 'k' in y]
        return j(*vs)

    def e_int(self, fr, e):
        return CLEAN

    e_flt = e_str = e_char = e_null = e_enumc = e_zero = e_int

    def e_bool(self, fr, e):
        return V(k=bool(e['v']))

    def e_this(self, fr, e):
        return V(fr.this.c, EMPTY, root=('this',))

    def e_ref(self, fr, e):
        if e.get('dk') == 'global' or e.get('q') and e.get('dk') not in ('local', 'param'):
            v = self.globs.get(e.get('usr'), CLEAN)
            return V(v.c, v.s, root=('g', e.get('usr')))
        v = fr.env.get(e['id'], CLEAN)
        a = fr.alias.get(e['id'])
        if e['id'] in fr.handles:
            return V(fr.handles[e['id']], EMPTY, None, False, a if a is not None else ('l', e['id']))
        if a is not None:
            w = self.rroot(fr, a)
            v = V(v.c | w.c, v.s | w.s, v.k, v.n, None, v.fn)
        return V(v.c, v.s, v.k, v.n, a if a is not None else ('l', e['id']), v.fn)

    def e_fref(self, fr, e):
        return V(fn=('f', e['usr']))

    def rroot(self, fr, r):
        if r[0] == 'l':
            return fr.env.get(r[1], CLEAN)
        if r[0] == 'f':
            return self.fields.get(r[1], CLEAN)
        if r[0] == 'g':
            return self.globs.get(r[1], CLEAN)
        return CLEAN

    def wroot(self, fr, r, v, strong=False):
        if r is None or r[0] == 'this':
            return
        t = fr.ctl()
        if r[0] == 'l':
            o = fr.env.get(r[1], CLEAN)
            fr.written.add(r[1])
            if strong and not fr.weak:
                fr.env[r[1]] = V(v.c | t, v.s | t, v.k if not t else None, v.n, None, v.fn)
            else:
                fr.env[r[1]] = V(o.c | v.c | t, o.s | v.s | t, None, False, None, v.fn or o.fn)
            a = fr.alias.get(r[1])
            if a is not None and a != r:
                self.wroot(fr, a, v)
        elif r[0] == 'f':
            self.wfield(r[1], v, fr)
        elif r[0] == 'g':
            o = self.globs.get(r[1], CLEAN)
            if self.panel:      # shared with the run, and processes hold different panels
                t = t | {PROC}
            n = V(o.c | v.c | t, o.s | v.s | t)
            if (n.c, n.s) != (o.c, o.s):
                self.globs[r[1]] = n
                self.changed = True

    def e_member(self, fr, e):
        b = self.ex(fr, e['b'])
        q = e.get('q') or e['name']
        if e['name'] == 'num_face_nbr_dofs' or e['name'].startswith('face_nbr'):
            return V(frozenset([NBR]), frozenset([NBR]))
        if not q.startswith('maxwell'):
            if e['name'] in SAME:
                return V(root=b.root)
            return V(b.c, b.s | b.c, root=b.root)          # first/second of a pair, data of a library object
        v = self.fields.get(q, CLEAN)
        h = handle(e.get('T'))
        if h is not None:
            return V(h | (v.c & {DIST}), EMPTY, root=('f', q))
        return V(v.c | b.c, v.s | b.c, True if self.panel and self.given.get(q) == {True} else None, root=('f', q))

    def e_sub(self, fr, e):
        b, i = self.ex(fr, e['b']), self.ex(fr, e['i'])
        return V(b.c | i.t(), b.c | i.t(), root=b.root)

    def e_un(self, fr, e):
        v = self.ex(fr, e['e'])
        if e['op'] == '!':
            return V(v.t(), v.t(), None if v.k is None else not v.k)
        if e['op'] in ('++', '--'):
            self.wroot(fr, v.root, V(v.c, v.s))
            return V(v.c, v.s)
        return V(v.c, v.s, None, False, v.root, v.fn)

    def e_cast(self, fr, e):
        return self.ex(fr, e['e'])

    e_dyncast = e_cast

    def e_throw(self, fr, e):
        self.ex(fr, e.get('e'))
        return CLEAN

    def e_assign(self, fr, e):
        r = self.ex(fr, e['r'])
        l = self.ex(fr, e['l'])
        plain = e['l']['k'] == 'ref' and e['l'].get('dk') in ('local', 'param') and l.root == ('l', e['l']['id'])
        self.wroot(fr, l.root, r, strong=plain)
        if not plain and l.root is not None and l.root[0] == 'l' and e['l']['k'] in ('sub', 'opcall', 'mcall'):
            pass
        return V(r.c, r.s, r.k, r.n, l.root, r.fn)

    def e_cassign(self, fr, e):
        r, l = self.ex(fr, e['r']), self.ex(fr, e['l'])
        self.wroot(fr, l.root, V(r.t() | l.c, r.t() | l.s))
        return V(r.t() | l.c, r.t() | l.s, root=l.root)

    def e_bin(self, fr, e):
        op = e['op']
        if op in ('&&', '||'):
            a = self.ex(fr, e['l'])
            if a.k is (op == '||'):
                return V(k=a.k)
            out = []
            t = a.t() if a.k is None else EMPTY
            fr.weak += 1
            self.under(fr, t, e.get('ln'), lambda: out.append(self.ex(fr, e['r'])))
            fr.weak -= 1
            b = out[0]
            if a.k is not None:
                return V(b.t(), b.t(), b.k)
            if b.k is (op == '||'):
                return V(k=b.k)
            return V(a.t() | b.t(), a.t() | b.t())
        a, b = self.ex(fr, e['l']), self.ex(fr, e['r'])
        if a.n or b.n:
            k = self.nranks(op, a, b, e)
            if k is not None:
                return V(k=k)
        return V(a.t() | b.t(), a.t() | b.t(), None, False, a.root if op in ('+', '-') and e.get('t') == 'p' else None)

    def nranks(self, op, a, b, e):
        """the number of processes compared with a number, more than one process assumed"""
        x, y = (e['r'], op) if a.n else (e['l'], {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(op, op))
        while x['k'] == 'cast':
            x = x['e']
        if x['k'] != 'int':
            return None
        v = int(x['v'])
        if v < 1:
            return {'==': False, '!=': True, '>': True, '>=': True, '<': False, '<=': False}.get(y)
        if v == 1:
            return {'==': False, '!=': True, '>': True, '>=': True, '<': False, '<=': False}.get(y)
        return {2: {'<': False, '>=': True}}.get(v, {}).get(y)

    def e_cond(self, fr, e):
        c = self.ex(fr, e['c'])
        if c.k is not None:
            return self.ex(fr, e['a'] if c.k else e['b'])
        out = []
        fr.weak += 1
        self.under(fr, c.t(), e.get('ln'), lambda: (out.append(self.ex(fr, e['a'])), out.append(self.ex(fr, e['b']))))
        fr.weak -= 1
        a, b = out
        t = c.t()
        return V(a.c | b.c | t, a.s | b.s | t, a.k if a.k == b.k else None, False, a.root)

    def e_lambda(self, fr, e):
        return V(fn=('lam', e, fr))

    def e_init(self, fr, e):
        vs = [self.ex(fr, x) for x in e['elts']]
        if len(vs) == 1:
            return vs[0]
        v = j(*vs)
        return V(v.t(), EMPTY if self.cont(e.get('T')) or (e.get('T') or '').endswith(']') else v.t())

    def e_new(self, fr, e):
        return self.ex(fr, e.get('init'))

    def e_delete(self, fr, e):
        self.ex(fr, e['e'])
        return CLEAN

    def cont(self, T):
        return bare(T).startswith(CONTAINERS)

    # ------------------------------------------------------------------ calls
    def invoke_lambda(self, fr, lam, args):
        _, e, _ = lam
        bodies = [e] if e.get('body') is not None else [x for x in e.get('alts') or []]
        out = CLEAN
        for x in bodies:
            for q, a in zip(x.get('params') or [], args):
                fr.env[q['id']] = V(a.c, a.s, a.k, a.n)
                if a.root is not None and q.get('ref'):
                    fr.alias[q['id']] = a.root
            sv, sr, sb = fr.val, fr.ret, fr.brk
            fr.val, fr.brk = CLEAN, EMPTY
            self.stmt(fr, x['body'])
            out = j(out, fr.val)
            fr.val, fr.ret, fr.brk = sv, sr, sb
        return out

    def targets(self, e):
        f = self.p.fn.get(e.get('usr'))
        out = []
        if e['k'] == 'mcall' and e.get('virt'):
            work, seen = [e['usr']], set()
            while work:
                u = work.pop()
                if u in seen:
                    continue
                seen.add(u)
                work += self.p.over.get(u, ())
                g = self.p.fn.get(u)
                if g and g.get('body') is not None:
                    out.append(g)
            return out
        if f and (f.get('body') is not None or f.get('inits')):
            return [f]
        return []

    def collective(self, fr, e, kind, what):
        if self.panel:
            return                 # a panel is solved over a communicator of its own process
        fr.coll = fr.coll | frozenset([kind])
        if fr.rec is not None:
            fr.rec[1].append(what if len(fr.pc) == fr.rec[0] else None)
        t = fr.when()
        if kind == 'exchange':
            t = t - {NBR}
        key = (fr.f['file'], e.get('ln'), what)
        self.sites.setdefault(key, fr.f['q'])
        if t and not self.serial(fr.f) and key not in self.viol:
            conds = [ln for i, (x, ln) in enumerate(fr.pc) if i not in fr.matched and x - ({NBR, DIST} if kind == 'exchange' else {DIST})]
            self.viol[key] = (fr.f['q'], sorted(t), conds)

    def worldly(self, fr, e):
        """the communicator of the whole run handed over while solving a panel"""
        if self.panel and e.get('q') not in MPI_LOCAL and any(
                a.get('k') == 'ref' and a.get('name', '').startswith('MPI_COMM_WORLD') for a in e.get('args', ())):
            self.world[(fr.f['file'], e.get('ln'), e['q'])] = fr.f['q']

    def noprobes(self, e):
        """a panel has no probes: truth of a test of how many there are, None if this is not such a test"""
        val = False
        while True:
            k = e.get('k')
            if k == 'cast' or k == 'un' and e['op'] in ('!', '*', '&'):
                val = not val if k == 'un' and e['op'] == '!' else val
                e = e['e']
            elif k == 'init' and len(e['elts']) == 1:
                e = e['elts'][0]
            elif k == 'mcall' and not e['args'] and e['name'] in ('size', 'empty'):
                val = not val if e['name'] == 'empty' else val
                e = e['obj']
            elif k == 'bin' and e['op'] in ('>', '!=', '==') and e['r'].get('k') in ('int', 'cast'):
                val = not val if e['op'] == '==' else val
                e = e['l']
            else:
                break
        if self.panel and e.get('k') == 'member' and (e.get('q') or '').startswith('maxwell::Probes::'):
            return val
        return None

    def e_construct(self, fr, e):
        self.worldly(fr, e)
        args = [self.ex(fr, a) for a in e['args']]
        T = bare(e.get('T'))
        f = self.p.fn.get(e['usr'])
        if f and (f.get('body') is not None) and not e.get('copy'):
            s = self.enter(fr, e, [f], args, CLEAN)
            return CLEAN
        if e['q'] in COLLECTIVE or T == 'mfem::ParMesh' and len(args) > 1 and (e.get('pm') or '')[:2] == 'vr':
            if not (T == 'mfem::ParFiniteElementSpace' and e.get('copy')):
                self.collective(fr, e, 'all', 'construction of %s' % T)
        if T in ITERATIVE and not e['args']:
            self.sites.setdefault((fr.f['file'], e.get('ln'), 'construction of %s' % T), fr.f['q'])
            return V(frozenset(['local iteration']))
        if self.cont(T):
            if e.get('copy') or len(args) == 1 and self.cont(e['args'][0].get('T')):
                return args[0] if args else CLEAN
            v = j(*args)
            if e.get('list') and not e.get('il'):
                return V(v.t(), EMPTY if T.startswith('std::') else v.t())
            return V(v.c, v.c | v.s)
        if e.get('copy') and args:
            return V(args[0].c, args[0].s, args[0].k, False, None, args[0].fn)
        v = j(*args)
        fn = next((a.fn for a in args if a.fn), None)
        return V(v.c, v.s, None, False, args[0].root if len(args) == 1 else None, fn)

    def enter(self, fr, e, fs, args, this):
        """call of analysed functions; lambdas handed over are taken to be called where they are handed over"""
        out = CLEAN
        for a in args:
            if a.fn and a.fn[0] == 'lam':
                self.invoke_lambda(fr, a.fn, [])
        for f in fs:
            if self.serial(f) or self.panel and (f.get('cls') or '') in NOT_PANEL:
                continue
            s = self.call(f, args, this)
            if s.coll:
                for kind in sorted(s.coll):
                    self.collective(fr, e, kind, 'call of ' + f['q'])
            out = j(out, s.ret)
            if len(fs) == 1 and s.ret.k is not None:
                out = V(out.c, out.s, s.ret.k)
            for i, v in s.outs.items():
                if i < len(args) and args[i].root is not None:
                    self.wroot(fr, args[i].root, v)
        return out

    def e_call(self, fr, e):
        self.worldly(fr, e)
        args = [self.ex(fr, a) for a in e['args']]
        q = e.get('q') or ''
        fs = self.targets(e)
        if fs:
            v = self.enter(fr, e, fs, args, CLEAN)
            h = handle(e.get('T'))
            return V(v.c, v.s, v.k) if h is None else V(h | (v.c & {DIST}))
        return self.library(fr, e, q, q.split('::')[-1], None, args)

    def e_mcall(self, fr, e):
        o = self.ex(fr, e['obj'])
        args = [self.ex(fr, a) for a in e['args']]
        fs = self.targets(e)
        if fs:
            v = self.enter(fr, e, fs, args, V(o.c))
            h = handle(e.get('T'))
            return V(v.c | o.c, v.s, v.k) if h is None else V(h | (v.c & {DIST}))
        return self.library(fr, e, e.get('q') or '', e['name'], o, args)

    def e_opcall(self, fr, e):
        args = [self.ex(fr, a) for a in e['args']]
        op = e['op']
        f = self.p.fn.get(e.get('usr'))
        if op == '()' and args[0].fn:
            fn = args[0].fn
            if fn[0] == 'lam':
                return self.invoke_lambda(fr, fn, args[1:])
            g = self.p.fn.get(fn[1])
            if g:
                return self.enter(fr, e, [g], args[1:], CLEAN)
        if f and f.get('body') is not None:
            if e.get('meth'):
                return self.enter(fr, e, [f], args[1:], args[0])
            return self.enter(fr, e, [f], args, CLEAN)
        if op in ('[]', '()'):
            i = j(*args[1:])
            T0 = e.get('T0') or ''
            if op == '[]' and 'map' in T0 and i.t():
                self.wroot(fr, args[0].root, V(EMPTY, i.t()))
            t = args[0].c | i.t()
            if 'GridFunction' in T0 and DIST in args[0].c:
                t = t | {PROC}
            return V(t, t if not self.cont(e.get('T')) else args[0].c, root=args[0].root)
        if op in ('->', '*') and len(args) == 1:
            return V(args[0].c | args[0].s, args[0].c, root=args[0].root, fn=args[0].fn)
        if op == '=':
            self.wroot(fr, args[0].root, args[1], strong=e['args'][0]['k'] == 'ref')
            return V(args[1].c, args[1].s, root=args[0].root)
        if op in ('+=', '-=', '*=', '/=', '<<', '>>', '|=', '++', '--'):
            v = j(*args)
            if op != '<<' or len(args) > 1:
                self.wroot(fr, args[0].root, V(v.t(), args[0].s if op not in ('<<', '>>') else v.t()))
            if op == '>>' and len(args) > 1:
                self.wroot(fr, args[1].root, V(v.t(), v.t()))
            return V(v.t(), v.t(), root=args[0].root)
        v = j(*args)
        return V(v.t(), v.t())

    def library(self, fr, e, q, name, o, args):
        if name == EXCHANGE:
            self.collective(fr, e, 'exchange', q)
            return CLEAN
        if q.startswith('MPI_') or name.startswith('MPI_'):
            return self.mpi(fr, e, name, args)
        if q in NRANKS or name == 'GetNRanks':
            return V(n=True)
        if q.endswith('Mpi::WorldRank') or name == 'GetMyRank':
            return V(frozenset([PROC]), frozenset([PROC]))
        if q in COLLECTIVE or name == 'FindPoints':
            self.collective(fr, e, 'all', q)
            if name == 'FindPoints':
                for a, m in zip(args, e.get('pm') or ''):
                    if m in 'rp':
                        self.wroot(fr, a.root, V(frozenset([PROC])))
                return V(frozenset([PROC]), frozenset([PROC]))
            if name in ('ReduceInt', 'GetGlobalNE'):
                return CLEAN
            if q == 'mfem::ODESolver::Step':              # the unknowns change; time advances by the step
                self.wroot(fr, args[0].root, V(frozenset([PROC])))
                if len(args) > 2:
                    self.wroot(fr, args[1].root, V(args[1].t() | args[2].t()))
                return CLEAN
        OT = bare(e.get('OT'))
        if OT in ITERATIVE and name in ('Mult', 'SetOperator'):
            if name == 'Mult':
                self.collective(fr, e, 'all', q)
                if o.c & {'local iteration'}:
                    key = (fr.f['file'], e.get('ln'), q)
                    self.viol.setdefault(key, (fr.f['q'], ['iterations counted from the process\'s own part of the unknowns: '
                                                           'the solver was built without a communicator'], []))
            return CLEAN
        if any(x in q for x in ('chrono', 'filesystem::exists', 'filesystem::create_director', 'filesystem::is_', 'std::rand', 'clock', 'time(')) \
                or name in ('RealTime', 'UserTime', 'time', 'clock', 'rand', 'getpid', 'gethostname', 'hardware_concurrency'):
            return V(frozenset([PROC]), frozenset([PROC]))
        a = j(*args)
        outs = [x for x, m in zip(args, e.get('pm') or '') if m in 'rp' and x.root is not None]
        lam = [x.fn for x in args if x.fn and x.fn[0] == 'lam']
        for f in lam:
            src = j(*[x for x in args if not x.fn])
            self.under(fr, src.s, e.get('ln'), lambda: self.invoke_lambda(fr, f, [V(src.c, src.c)] * 4))
        if o is None:
            for x in outs:
                self.wroot(fr, x.root, V(a.t(), x.s))
            if name in ('move', 'forward', 'get', 'ref', 'addressof', 'make_unique', 'make_shared', 'make_pair', 'next', 'prev', 'begin', 'end') and args:
                if name.startswith('make_'):
                    g = self.ctor(e)
                    if g:
                        self.enter(fr, e, [g], args, CLEAN)
                        return CLEAN
                    if 'ParFiniteElementSpace' in (e.get('T') or '') or 'ParMesh' in (e.get('T') or ''):
                        self.collective(fr, e, 'all', 'construction of ' + e['T'])
                return V(a.c, a.s, args[0].k if len(args) == 1 else None, False, args[0].root, args[0].fn)
            return V(a.t(), a.t())
        # method of a library object
        if any(x in OT for x in DISTRIBUTED) and (q.startswith('mfem') or q.startswith('maxwell')):
            if name in SAME:
                if name in ('GetMesh', 'GetParMesh', 'FESpace', 'ParFESpace', 'GetElementTransformation', 'GetSubMesh'):
                    return V((handle(e.get('T')) or EMPTY) | (o.c & {DIST}), EMPTY, root=o.root)
                return V(root=o.root)
            if handle(OT) == EMPTY and DIST not in o.c:       # the whole mesh, the same on every process
                for x in outs:
                    self.wroot(fr, x.root, V(a.t(), a.t()))
                return V(a.t(), a.t(), root=o.root)
            for x in outs:
                self.wroot(fr, x.root, V(frozenset([PROC]), frozenset([PROC])))
            return V(frozenset([PROC]) | o.c | a.t(), frozenset([PROC]), root=o.root)
        if name in SHAPE_Q:
            t = o.s
            return V(t if name not in ('begin', 'end', 'cbegin', 'cend', 'rbegin', 'rend') else o.c, t, root=o.root)
        if name in KEY_Q:
            t = o.s | a.t()
            return V(t if name != 'find' else t, t, root=o.root)
        if name in GROW:
            self.wroot(fr, o.root, V(a.t(), EMPTY))
            return V(root=o.root)
        if name in KEYED:
            k = args[0].t() if args else EMPTY
            self.wroot(fr, o.root, V(a.t(), k))
            return V(k, k, root=o.root)
        if name in RESIZE:
            self.wroot(fr, o.root, V(a.t(), a.t()))
            return CLEAN
        if name in ('at', 'front', 'back', 'get', 'value', 'Last', 'top'):
            return V(o.c | a.t(), o.c | a.t() if not self.cont(e.get('T')) else o.c, root=o.root, fn=o.fn)
        if not e.get('const'):
            if a.t():
                self.wroot(fr, o.root, V(a.t(), EMPTY))
        for x in outs:
            self.wroot(fr, x.root, V(a.t() | o.c, x.s))
        return V(o.c | a.t(), o.s | a.t(), root=o.root)

    def ctor(self, e):
        """constructor run by make_unique/make_shared"""
        T = (e.get('targs') or [''])[0]
        c = [f for f in self.p.fn.values() if f.get('ctor') and f.get('cls') == T and len(f['params']) == len(e['args']) and f.get('body') is not None]
        return c[0] if c else None

    def mpi(self, fr, e, name, args):
        if name == 'MPI_Comm_size':
            r = args[1].root
            if r:
                self.wroot(fr, r, V(n=True), strong=True)
            return CLEAN
        if name == 'MPI_Comm_rank':
            self.wroot(fr, args[1].root, V(frozenset([PROC]), frozenset([PROC])), strong=True)
            return CLEAN
        if name in MPI_LOCAL:
            for a, m in zip(args, e.get('pm') or ''):
                if m == 'p':
                    self.wroot(fr, a.root, V(frozenset([PROC]), EMPTY))
            return V(frozenset([PROC]), frozenset([PROC])) if name == 'MPI_Wtime' else CLEAN
        self.collective(fr, e, 'all', name)
        k = MPI_SAME.get(name)
        for i, (a, m) in enumerate(zip(args, e.get('pm') or '')):
            if i == k:
                r = a.root
                if r and r[0] == 'l' and r[1] in fr.env:
                    fr.env[r[1]] = V(EMPTY, fr.env[r[1]].s if name != 'MPI_Allreduce' else EMPTY)
            elif m == 'p':
                self.wroot(fr, a.root, V(frozenset([PROC]), EMPTY))
        return CLEAN


def P28(ctx):
    ctx.rule('same-collectives', 'No collective operation, and no call of anything that performs one, depends for whether, how often or '
             'in which order it runs on a value that can differ between processes.')
    p = ctx.prog()
    for c in (PANEL,):
        if not any(f.get('cls') == c for f in p.fn.values()):
            raise AnalysisError('class %s not found: which solves run on a communicator of their own is not known' % c)
    ctx.rule('own-communicator', 'Solving a panel involves the processes that hold its faces only, so it never uses the communicator of the whole run.')
    a = Spmd(ctx, p)
    a.run()
    for k, fn in sorted(a.world.items()):
        ctx.bad('own-communicator', '%s:%s %s in %s' % (k[0], k[1], k[2], fn), 'the communicator of all processes is used while a panel is set up or solved')
    if not a.world:
        ctx.ok('own-communicator', PANEL)
    for u in a.visited:
        ctx.analysed.add(u)
    ctx.assumptions += ['more than one process; every process reads the same case and mesh files',
                        'an exception ends the run of all processes',
                        'panels have no probes and use the assembled operator',
                        'exchange with neighbours is point to point: a process without neighbour unknowns has nobody to exchange with'] + \
        sorted({'%s: %s' % (c.split('::')[-1], t) for c, t in SERIAL.items()}) + ['spectral analysis: one process']
    need = {'MPI_Barrier': 1, 'MPI_Allreduce': 1, 'ExchangeFaceNbrData': 1, 'FindPoints': 1, 'ODESolver::Step': 1, 'ParaViewDataCollection::Save': 1}
    for w in need:
        if not any(w in k[2] for k in a.sites):
            raise AnalysisError('no %s found in the analysed sources' % w)
    for k, fn in sorted(a.sites.items()):
        where = '%s:%s %s in %s' % (k[0], k[1], k[2], fn)
        if k not in a.viol:
            ctx.ok('same-collectives', where)
    # the innermost function on a chain names the construct
    for k, (fn, t, conds) in sorted(a.viol.items()):
        ctx.bad('same-collectives', '%s:%s %s in %s' % (k[0], k[1], k[2], fn),
                'reached depending on %s%s' % (', '.join(t), ' (condition at line %s)' % ', '.join(str(c) for c in conds) if conds else ' (an earlier return, break or continue)'))


CHECKS = {'P28': P28}
