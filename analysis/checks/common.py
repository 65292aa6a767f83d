"""Helpers shared by the checks: shaped JSON, modelled meshes."""
from fw import *
from terms import *


def js(x):
    """abstract JSON document: dict / list / leaf (python value or term)"""
    if isinstance(x, dict):
        return Arr('map', None, num(len(x)), {string(k): js(v) for k, v in x.items()}, None)
    if isinstance(x, (list, tuple)):
        return Arr('seq', None, num(len(x)), {num(i): js(v) for i, v in enumerate(x)}, None)
    if isinstance(x, bool):
        return TRUE if x else FALSE
    if isinstance(x, str):
        return string(x)
    if isinstance(x, (int, float, Fraction)):
        return num(x)
    return x


def fn(p, name, nargs=None):
    c = [f for f in p.fn.values() if f['name'] == name and f.get('body') is not None and (nargs is None or len(f['params']) == nargs)]
    if not c:
        raise AnalysisError('no definition of %s found' % name)
    return c[0]


def elements(ip, v):
    """values of the one sequence an object holds"""
    if isinstance(v, Obj):
        a = [x for x in v.f.values() if isinstance(x, Arr) and x.kind == 'seq']
        if len(a) != 1:
            raise AnalysisError('container layout not understood: %r' % (v,))
        v = a[0]
    if not isinstance(v, Arr) or v.size.op != 'num':
        raise AnalysisError('container content not understood: %r' % (v,))
    return [v.e.get(num(i), v.fill) for i in range(int(val(v.size)))]


def obj_at(ip, v):
    """object behind a (smart) pointer value"""
    lv = ip.deref(v)
    o = ip.read(lv)
    if not isinstance(o, Obj):
        raise AnalysisError('pointer does not lead to an object: %r' % (o,))
    return lv, o


def virt(p, cls, name, nargs=None):
    """most derived definition of a method for a dynamic class"""
    for c in [cls] + list(p.bases(cls)):
        for f in p.fn.values():
            if f.get('cls') == c and f['name'] == name and f.get('body') is not None and (nargs is None or len(f['params']) == nargs):
                return f
    raise AnalysisError('no definition of %s::%s found' % (cls, name))


def field(ip, o, *path):
    for k in path:
        o = ip.getc(o, ('f', k))
    return o


def trunc(x):
    return mk('app', ('trunc', x), 'n')


class MeshModel:
    """a small mesh: boundary elements with given attributes and symbolic vertices,
    elements, faces (boundary element or -1, interior?, neighbouring elements)"""

    def __init__(self, dim, bdr, nverts=2, faces=(), attributes=(), ne=2, procs=1, types=None, part=None):
        self.dim, self.bdr, self.nv = dim, bdr, nverts
        self.faces, self.attributes, self.ne, self.procs = list(faces), list(attributes), ne, procs
        self.types = types or [2] * ne
        self.x = {(b, v): [sym('x%d_%d_%d' % (b, v, d)) for d in range(dim)] for b in range(len(bdr)) for v in range(nverts)}
        self.loaded, self.refined = [], 0
        self.ranks = part or [sym('part%d' % i) for i in range(ne)]
        self.built = []

    def obj(self, cls='mfem::Mesh', base=None):
        bd = sorted(set(self.bdr))
        return Obj(cls, base if base is not None else sym('mesh', None), {'attributes': vec([num(a) for a in self.attributes]), 'bdr_attributes': vec([num(a) for a in bd])})

    def models(self):
        def const(t):
            return lambda ip, e, *r: t

        def index(n):
            """accessor of one constant index -> python function of the index"""
            def deco(g):
                def m(ip, e, objlv, w):
                    i = ip.term(ip.eval(e['args'][0]))
                    if i.op != 'num' or not 0 <= int(val(i)) < n():
                        return ip.external_call(e, objlv, w)
                    return g(ip, e, int(val(i)))
                return m
            return deco

        @index(lambda: len(self.bdr))
        def attr(ip, e, i):
            return num(self.bdr[i])

        @index(lambda: len(self.bdr))
        def verts(ip, e, b):
            ip.write(ip.lval(e['args'][1]), Arr('seq', None, num(self.nv), {num(k): num(b * self.nv + k) for k in range(self.nv)}, None))

        @index(lambda: len(self.bdr) * self.nv)
        def vert(ip, e, i):
            b, v = divmod(i, self.nv)
            return Ptr(LV(ip.new_cell(vec(self.x[b, v]))), ZERO)

        @index(lambda: len(self.faces))
        def interior(ip, e, i):
            return TRUE if self.faces[i][1] else FALSE

        @index(lambda: len(self.bdr))
        def internal(ip, e, b):
            for be, it, els in self.faces:
                if be == b and it:
                    return Ptr(LV(ip.new_cell(Obj('mfem::FaceElementTransformations', sym('ft%d' % b, None), {'Elem1No': num(els[0]), 'Elem2No': num(els[1])}))))
            return NULL

        @index(lambda: self.ne)
        def etype(ip, e, i):
            return num(self.types[i])

        def load(ip, e, *r):
            self.loaded.append((e.get('name'), [ip.term(ip.eval(a)) for a in e['args']]))
            return self.obj()

        def refine(ip, e, objlv, w):
            self.refined += 1

        def f2b(ip, e, *r):
            return vec([num(f[0]) for f in self.faces])

        def part(ip, e, objlv, w):
            n = ip.term(ip.eval(e['args'][0]))
            self.part = ip.new_cell(vec(self.ranks))
            self.partn = n
            return Ptr(LV(self.part), ZERO)
        m = {}
        for cls in ('mfem::Mesh', 'mfem::ParMesh'):
            m[cls + '::GetNBE'] = const(num(len(self.bdr)))
            m[cls + '::GetNE'] = const(num(self.ne))
            m[cls + '::Dimension'] = const(num(self.dim))
            m[cls + '::SpaceDimension'] = const(num(self.dim))
            m[cls + '::GetBdrAttribute'] = attr
            m[cls + '::GetBdrElementVertices'] = verts
            m[cls + '::GetVertex'] = vert
            m[cls + '::GetNumFaces'] = const(num(len(self.faces)))
            m[cls + '::FaceIsInterior'] = interior
            m[cls + '::GetFaceToBdrElMap'] = f2b
            m[cls + '::GetInternalBdrFaceTransformations'] = internal
            m[cls + '::GetElementType'] = etype
            m[cls + '::LoadFromFile'] = load
            m[cls + '::UniformRefinement'] = refine
            m[cls + '::GeneratePartitioning'] = part
            m[cls + '::SetAttributes'] = const(None)
        m['mfem::Mpi::WorldSize'] = const(num(self.procs))
        base = absint.MODELS['construct']

        def cons(ip, e, T):
            if T in ('mfem::ParMesh', 'mfem::Mesh') and e['args']:
                a = [ip.eval(x) for x in e['args']]
                self.built.append((T, a))
                return self.obj(T)
            if T in ('mfem::ParMesh', 'mfem::Mesh'):
                return Obj(T, mk('app', ('empty:' + T,)), {})
            if T == 'maxwell::Solver':
                a = [ip.eval(x) for x in e['args']]
                self.solver = a
                return Obj(T, mk('app', ('solver',)), {})
            return base(ip, e, T)
        m['construct'] = cons
        return m

    def centroid(self, b):
        return [div(self._sum(b, d), num(self.nv)) for d in range(self.dim)]

    def _sum(self, b, d):
        s = ZERO
        for v in range(self.nv):
            s = add(s, self.x[b, v][d])
        return s


def reduce_one(ip, e, w=None, *r):
    """MPI_Allreduce on a single process: the identity"""
    recv, send = ip.eval(e['args'][1]), ip.eval(e['args'][0])
    if not isinstance(recv, Ptr) or not isinstance(send, Ptr):
        return ZERO
    ip.write(ip.deref(recv), ip.read(ip.deref(send)))
    return ZERO
