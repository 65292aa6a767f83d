"""Forward value-flow analysis over the exported syntax trees.

Every expression gets a value number (terms.py).  Branches are joined with gated
values, loops with a constant trip count are unrolled, other loops are
summarised by their recurrences (induction variables, sums, guarded element
updates, appends, first-match exits).  Functions of the analysed sources are
analysed at their call sites; library functions are either modelled (vectors,
strings, smart pointers, maths) or kept as uninterpreted functions.
No code of the analysed tree is run.
"""
from fractions import Fraction
from terms import *
import re
import terms as TM


class Unsupported(Exception):
    pass


# ------------------------------------------------------------------- values

class Obj:
    __slots__ = ('cls', 'base', 'f')

    def __init__(s, cls, base, f):
        s.cls, s.base, s.f = cls, base, f

    def __repr__(s):
        return 'Obj<%s>(%s%s)' % (s.cls, s.base if s.base is not None else '', ', '.join('%s=%r' % kv for kv in s.f.items()))


class Arr:
    """sequence / map; elems: dict idx Term -> value"""
    __slots__ = ('kind', 'base', 'size', 'e', 'fill')

    def __init__(s, kind, base, size, e, fill=None):
        s.kind, s.base, s.size, s.e, s.fill = kind, base, size, e, fill

    def concrete(s):
        return s.base is None and is_num(s.size)

    def __repr__(s):
        return '%s[%s%s]{%s}' % (s.kind, (repr(s.base) + ':') if s.base is not None else '', s.size, ', '.join('%r:%r' % kv for kv in s.e.items()))


class Ptr:
    """off None: pointer to the object lv; else pointer to element off of the
    sequence lv"""
    __slots__ = ('lv', 'off')

    def __init__(s, lv, off=None):
        s.lv, s.off = lv, off

    def __repr__(s):
        return 'Ptr(%r,%r)' % (s.lv, s.off)


class View:
    """vector that refers to n elements of another one"""
    __slots__ = ('lv', 'off', 'n')

    def __init__(s, lv, off, n):
        s.lv, s.off, s.n = lv, off, n


class Clo:
    __slots__ = ('node', 'env', 'this', 'own')

    def __init__(s, node, env, this, own=None):
        s.node, s.env, s.this, s.own = node, env, this, own


class FnRef:
    __slots__ = ('usr', 'q')

    def __init__(s, usr, q):
        s.usr, s.q = usr, q


def bare(T):
    return (T or '').replace('const ', '').rstrip('& ')


def map_order(keys):
    """iteration order of an ordered container with constant keys"""
    if all(k.op == 'num' for k in keys):
        return sorted(keys, key=lambda k: k.args[0])
    if all(k.op == 'str' for k in keys):
        return sorted(keys, key=lambda k: k.args[0])
    if all(k.op in ('num', 'enumc') for k in keys):
        return sorted(keys, key=lambda k: k.args[0] if k.op == 'num' else k.args[1])
    return list(keys)


class It:
    """iterator into container lv at position/key i ; end: True when past-the-end"""
    __slots__ = ('lv', 'i', 'found')

    def __init__(s, lv, i, found=None):
        s.lv, s.i, s.found = lv, i, found


class VIte:
    __slots__ = ('c', 'a', 'b')

    def __init__(s, c, a, b):
        s.c, s.a, s.b = c, a, b

    def __repr__(s):
        return 'VIte(%r,%r,%r)' % (s.c, s.a, s.b)


class LV:
    __slots__ = ('alts',)

    def __init__(s, cell=None, path=(), alts=None):
        s.alts = alts if alts is not None else [(TRUE, cell, tuple(path))]

    def ext(s, comp):
        return LV(alts=[(c, cell, p + (comp,)) for c, cell, p in s.alts])

    def __repr__(s):
        return 'LV(%s)' % (s.alts,)


VEC_TYPES = ('mfem::Vector', 'mfem::GridFunction', 'mfem::ParGridFunction', 'mfem::Array', 'std::vector', 'std::array', 'Eigen::Matrix', 'Eigen::Map',
             'mfem::DenseMatrix', 'mfem::SparseMatrix', 'mfem::LinearForm', 'mfem::HypreParVector')


def sort_of(cat, T=None):
    if cat in ('d', 'i', 'e'):
        return 'n' if cat != 'e' else 'e'
    if cat == 'b':
        return 'b'
    if cat == 'p':
        return 'p'
    if T:
        if 'basic_string' in T and 'vector' not in T and 'map' not in T:
            return 's'
        if T.replace('const ', '').startswith('std::complex'):
            return 'z'
        t = T.replace('const ', '').rstrip('& *')
        if any(t.startswith(v) for v in VEC_TYPES):
            return 'v'
    return None


def template_args(t):
    """top-level template arguments of a type spelling"""
    out, d, cur = [], 0, ''
    for c in t[t.index('<') + 1:t.rindex('>')]:
        if c == ',' and not d:
            out.append(cur.strip())
            cur = ''
            continue
        d += (c in '<(') - (c in '>)')
        cur += c
    return out + [cur.strip()]


def is_vec_type(T):
    t = T.replace('const ', '').rstrip('& *')
    return any(t.startswith(v) for v in VEC_TYPES)


class Frame:
    __slots__ = ('fn', 'env', 'this', 'rets', 'throws', 'loops', 'retref')

    def __init__(s, fn, env, this):
        s.fn, s.env, s.this = fn, env, this
        s.rets, s.throws, s.loops = [], [], []


class LoopFrame:
    __slots__ = ('breaks', 'conts')

    def __init__(s):
        s.breaks, s.conts = [], []


class State:
    __slots__ = ('store', 'pc', 'dead')

    def __init__(s, store, pc, dead=False):
        s.store, s.pc, s.dead = store, pc, dead

    def fork(s, pc):
        return State(dict(s.store), pc, s.dead)


class Event:
    __slots__ = ('guard', 'loops', 'name', 'args', 'ln', 'fn', 'obj', 'seq', 'store')

    def __init__(s, guard, loops, name, obj, args, ln, fn):
        s.guard, s.loops, s.name, s.obj, s.args, s.ln, s.fn = guard, loops, name, obj, args, ln, fn

    def __repr__(s):
        return 'Event(%s, %s on %s (%s) @%s)' % (s.guard, s.name, s.obj, ', '.join(map(repr, s.args)), s.ln)


MAX_UNROLL = 400
PURE_PREFIX = ('Get', 'Is', 'Has', 'Size', 'Num', 'size', 'empty', 'count', 'find', 'begin', 'end', 'at', 'get', 'FESpace', 'FEColl', 'ParFESpace',
               'Dimension', 'SpaceDimension', 'Height', 'Width', 'Find', 'contains', 'c_str', 'str', 'data', 'is_', 'good', 'value',
               'Norm', 'Max', 'Min', 'Sum', 'SpMat', 'first', 'second', 'length', 'substr', 'front', 'back', 'Own', 'Check', 'Read', 'HostRead', 'FaceIs', 'Element', 'items', 'UseDevice', 'Jacobian', 'Weight', 'InverseJacobian', 'AdjugateJacobian', 'Order', 'FaceNbrData')


class Interp:
    def __init__(self, prog, opaque=(), models=None, inline_depth=40, keep_streams=False):
        self.p = prog
        self.locs = {}
        self.opaque = set(opaque)      # qualified names kept uninterpreted
        self.models = dict(MODELS)
        if models:
            self.models.update(models)
        self.ncell = 0
        self.frames = []
        self.pcstack = []
        self.loopctx = []
        self.events = []
        self.depth = 0
        self.inline_depth = inline_depth
        self.st = State({}, TRUE)
        self.visited = {}      # usr -> number of times analysed
        self.nstmts = 0
        self.statics = {}
        self.globals = {}
        self.approx = []       # places where precision was given up
        self.cellname = {}
        self.onbranch = None
        self.views = False

    # ------------------------------------------------------------- cells
    def new_cell(self, v, name=None):
        self.ncell += 1
        c = self.ncell
        self.st.store[c] = v
        if name:
            self.cellname[c] = name
        return c

    def sym_obj(self, name, T):
        """an input of class type T: opaque, fields readable"""
        t = sym(name, sort_of('c', T))
        r = self.p.rec.get(T)
        if r:
            return Obj(T, t, {})
        return t

    # ------------------------------------------------- value <-> term
    def term(self, v, depth=0):
        if isinstance(v, Term):
            return v
        if isinstance(v, View):
            v = self.view_arr(v)
        if depth > 30:
            return mk('app', ('deep',))
        if isinstance(v, Obj):
            if v.base is not None and not v.f:
                return v.base
            fs = []
            for k in sorted(v.f):
                t = self.term(v.f[k], depth + 1)
                if v.base is not None and t is self._fld(v.base, k, None):
                    continue
                fs.append((k, t))
            if v.base is not None and not fs:
                return v.base
            a = []
            for k, t in fs:
                a += [string(k), t]
            return mk('app', ('obj', string(v.cls or '?')) + ((v.base,) if v.base is not None else ()) + tuple(a))
        if isinstance(v, Arr):
            if v.base is not None and not v.e:
                return v.base
            a = []
            ks = list(v.e)
            if all(const_like(k) for k in ks):
                ks.sort(key=lambda k: k.id)
            fill = self.term(v.fill, depth + 1) if v.fill is not None else None
            if fill is not None and is_num(v.size) and v.base is None and len(ks) >= v.size.args[0] and all(is_num(k) for k in ks):
                fill = None
            for k in ks:
                t = self.term(v.e[k], depth + 1)
                a += [k, t]
            if v.base is None and fill is not None and not a and is_num(v.size) is False and fill is ZERO:
                return mk('app', ('zeros', v.size), 'v')
            hd = ('arr', string(v.kind))
            if v.base is not None:
                return mk('app', ('upd', v.base) + tuple(a), 'v')
            return mk('app', hd + (v.size,) + ((fill,) if fill is not None else ()) + tuple(a), 'v')
        if isinstance(v, Ptr):
            t = self.term(self.read(v.lv), depth + 1)
            if v.off is not None:
                if v.off is ZERO:
                    return mk('app', ('data', t), 'p')
                return mk('app', ('data+', t, v.off), 'p')
            return mk('ref', (t,), 'p')
        if isinstance(v, VIte):
            return ite(v.c, self.term(v.a, depth + 1), self.term(v.b, depth + 1))
        if isinstance(v, It):
            return mk('app', ('iter', self.term(self.read(v.lv), depth + 1), v.i))
        if isinstance(v, Clo):
            return mk('app', ('lambda', v.node.get('ln', 0)))
        if isinstance(v, FnRef):
            return mk('app', ('fn', v.q))
        if v is None:
            return mk('app', ('void',))
        return mk('app', ('py', str(v)))

    def vite(self, c, a, b):
        if c is TRUE:
            return a
        if c is FALSE:
            return b
        if a is b:
            return a
        if isinstance(a, Term) and isinstance(b, Term):
            return ite(c, a, b)
        if isinstance(a, View) and isinstance(b, View) and a.off is b.off and a.n is b.n and a.lv.alts == b.lv.alts:
            return a
        if isinstance(a, View):
            a = self.view_arr(a)
        if isinstance(b, View):
            b = self.view_arr(b)
        if a is None:
            return b
        if b is None:
            return a
        if isinstance(a, Obj) and isinstance(b, Obj) and a.cls == b.cls and a.base is b.base:
            f = {}
            for k in list(a.f) + [k for k in b.f if k not in a.f]:
                f[k] = self.vite(c, self.getc(a, ('f', k)), self.getc(b, ('f', k)))
            return Obj(a.cls, a.base, f)
        if isinstance(a, Arr) and isinstance(b, Arr) and a.base is b.base and a.size is b.size and a.kind == b.kind and self.term(a.fill) is self.term(b.fill):
            keys = list(a.e) + [k for k in b.e if k not in a.e]
            if a.kind == 'seq' and (all(const_like(k) for k in keys) or (list(a.e) == list(b.e)) or (len(keys) <= 1)):
                e = {}
                for k in keys:
                    e[k] = self.vite(c, self.getc(a, ('i', k)), self.getc(b, ('i', k)))
                return Arr(a.kind, a.base, a.size, e, a.fill)
            if a.kind == 'map' and list(a.e) == list(b.e):
                return Arr(a.kind, a.base, a.size, {k: self.vite(c, a.e[k], b.e[k]) for k in keys}, a.fill)
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.off is b.off and a.lv.alts == b.lv.alts:
            return a
        if isinstance(a, (Obj, Arr)) and isinstance(b, Term) and a.base is b and isinstance(a, Obj):
            return self.vite(c, a, Obj(a.cls, b, {}))
        if isinstance(b, Obj) and isinstance(a, Term) and b.base is a:
            return self.vite(c, Obj(b.cls, a, {}), b)
        if isinstance(a, Arr) and isinstance(b, Term) and a.base is b:
            return self.vite(c, a, Arr(a.kind, b, a.size, {}, None))
        if isinstance(b, Arr) and isinstance(a, Term) and b.base is a:
            return self.vite(c, Arr(b.kind, a, b.size, {}, None), b)
        if isinstance(a, (Arr, Term)) and isinstance(b, (Arr, Term)):
            if not (isinstance(a, Arr) and a.concrete()) and not (isinstance(b, Arr) and b.concrete()):
                return ite(c, self.term(a), self.term(b))
        return VIte(c, a, b)

    # ------------------------------------------------- component access
    def _fld(self, t, name, T, cat=None):
        def f(x):
            if x.op == 'throw':
                return x
            if x.op == 'app' and x.args[0] == 'pair' and name in ('first', 'second'):
                return x.args[1 if name == 'first' else 2]
            if x.op == 'app' and x.args[0] == 'obj':
                a = x.args[2:]
                base = None
                if len(a) % 2 == 1:
                    base, a = a[0], a[1:]
                for i in range(0, len(a), 2):
                    if a[i].args[0] == name:
                        return a[i + 1]
                if base is not None:
                    return f(base)
            return mk('app', ('.' + name, x), sort_of(cat, T))
        return lift1(f, t) if t.op == 'ite' else f(t)

    def _idx(self, t, i, cat=None, T=None):
        def f(x, i):
            if x.op == 'throw':
                return x
            if i.op == 'throw':
                return i
            if x.op == 'poly' and x.sort == 'v':
                r = ZERO
                for m, c in x.args:
                    vs = [(a, e) for a, e in m if a.sort == 'v']
                    if len(vs) != 1 or vs[0][1] != 1:
                        return mk('app', ('idx', x, i), sort_of(cat, T))
                    p = f(vs[0][0], i)
                    p = mul(p, num(c))
                    for a, e in m:
                        if a.sort != 'v':
                            p = mul(p, power(a, e))
                    r = add(r, p)
                return r
            if x.op == 'num' and x is ZERO:
                return ZERO
            if x.op == 'app' and x.args[0] == 'zeros':
                return ZERO
            if x.op == 'app' and x.args[0] == 'upd':
                b = x.args[1]
                prs = x.args[2:]
                for k in range(len(prs) - 2, -1, -2):
                    e = b_eq(prs[k], i)
                    if e is TRUE:
                        return prs[k + 1]
                    if e is not FALSE:
                        return mk('app', ('idx', x, i), sort_of(cat, T))
                return f(b, i)
            if x.op == 'app' and x.args[0] == 'lmap':
                # lmap(bv, n, val): elementwise comprehension
                bv, n, v = x.args[1:4]
                return replace(v, {bv: i})
            if x.op == 'app' and x.args[0] == 'arr' and len(x.args) > 3:
                prs = x.args[3:]
                fill = None
                if len(prs) % 2 == 1:
                    fill, prs = prs[0], prs[1:]
                amb = False
                for k in range(len(prs) - 2, -1, -2):
                    e = b_eq(prs[k], i)
                    if e is TRUE:
                        return prs[k + 1]
                    if e is not FALSE:
                        amb = True
                        break
                if not amb and fill is not None:
                    return fill
            if x.op == 'sym' and x.sort is None:
                pass
            return mk('app', ('idx', x, i), sort_of(cat, T))
        r = lift2(f, t, i)
        return r if r is not None else f(t, i)

    def getc(self, v, comp, hint=None):
        k, n = comp
        cat, T = hint or (None, None)
        if isinstance(v, View):
            return self.getc(self.read(v.lv), ('i', add(v.off, n)), hint) if k == 'i' else UNDEF
        if isinstance(v, VIte):
            return self.vite(v.c, self.getc(v.a, comp, hint), self.getc(v.b, comp, hint))
        if k == 'f':
            if isinstance(v, Obj):
                if n in v.f:
                    return v.f[n]
                if v.base is not None:
                    t = self._fld(v.base, n, T, cat)
                    return self.wrap(t, T)
                return UNDEF
            if isinstance(v, Term):
                return self.wrap(self._fld(v, n, T, cat), T)
            if isinstance(v, Ptr):
                return self.getc(self.read(v.lv), comp, hint)
            return self._fld(self.term(v), n, T, cat)
        if k == 'i':
            if isinstance(v, Arr):
                return self.arr_get(v, n, hint)
            if isinstance(v, Obj):
                t = self.term(v)
                return self.wrap(self._idx(t, n, cat, T), T)
            if isinstance(v, Term):
                return self.wrap(self._idx(v, n, cat, T), T)
            if isinstance(v, Ptr):
                return self.getc(self.read(v.lv), ('i', add(v.off or ZERO, n)), hint)
            return self._idx(self.term(v), n, cat, T)
        raise Unsupported('getc')

    def wrap(self, t, T):
        """opaque values of repo record type become Obj so fields/methods resolve"""
        if T and isinstance(t, Term) and t.op not in ('throw', 'undef'):
            tt = T.replace('const ', '').rstrip('& ')
            if tt in self.p.rec and t.op != 'ite':
                return Obj(tt, t, {})
        return t

    def arr_get(self, v, i, hint=None):
        isnum = i.op == 'num'
        if isnum and all(k.op == 'num' for k in v.e):
            # numbers only: distinct terms are distinct indices
            if i in v.e:
                return v.e[i]
            ks = ()
        else:
            ks = reversed(list(v.e))
        if ks != () and i in v.e:
            # a later write at a possibly equal index would shadow it
            ls = list(v.e)
            pos = ls.index(i)
            if all(b_eq(k, i) is FALSE for k in ls[pos + 1:]):
                return v.e[i]
        amb = []
        for k in ks:
            e = b_eq(k, i)
            if e is TRUE:
                amb.append((TRUE, v.e[k]))
                break
            if e is FALSE:
                continue
            amb.append((e, v.e[k]))
        if amb and amb[-1][0] is TRUE:
            r = amb[-1][1]
            rest = amb[:-1]
        else:
            rest = amb
            if v.base is not None:
                r = self.getc(v.base, ('i', i), hint)
            elif v.fill is not None:
                r = v.fill
            elif v.kind == 'map' and not is_num(v.size) is True:
                r = mk('app', ('nokey', i))
            else:
                r = mk('app', ('oob', i)) if not amb else amb[-1][1]
                if amb:
                    rest = amb[:-1]
        for e, x in reversed(rest):
            r = self.vite(e, x, r)
        return r

    def putc(self, v, path, val, cls=None):
        if not path:
            return val
        k, n = path[0]
        if isinstance(v, VIte):
            return self.vite(v.c, self.putc(v.a, path, val), self.putc(v.b, path, val))
        if isinstance(v, Ptr):
            self.write(LV(alts=[(c, cell, p + tuple(path)) for c, cell, p in v.lv.alts]), val)
            return v
        if isinstance(v, View):
            if k == 'i':
                self.write(LV(alts=[(c, cell, p + (('i', add(v.off, n)),) + tuple(path[1:])) for c, cell, p in v.lv.alts]), val)
            return v
        if k == 'f':
            if isinstance(v, Obj):
                f = dict(v.f)
                f[n] = self.putc(self.getc(v, path[0]), path[1:], val)
                return Obj(v.cls, v.base, f)
            if isinstance(v, Term):
                return Obj(None, v, {n: self.putc(self.getc(v, path[0]), path[1:], val)})
            if isinstance(v, Arr):
                return v
        if k == 'i':
            new = self.putc(self.getc(v, path[0]) if len(path) > 1 else None, path[1:], val)
            if isinstance(v, Obj):
                v = self.term(v)
            if isinstance(v, Term):
                if v.op == 'app' and v.args[0] == 'upd':
                    e = {}
                    for q in range(2, len(v.args), 2):
                        e[v.args[q]] = v.args[q + 1]
                    v = Arr('seq', v.args[1], mk('app', ('size', v.args[1]), 'n'), e)
                else:
                    v = Arr('seq', v, mk('app', ('size', v), 'n'), {})
            if isinstance(v, Arr):
                e = dict(v.e)
                if n in e:
                    del e[n]
                size = v.size
                if v.kind == 'map' and is_num(size) and n not in v.e:
                    size = add(size, ONE)
                e[n] = new
                return Arr(v.kind, v.base, size, e, v.fill)
        raise Unsupported('putc %r into %r' % (path, v))

    def read(self, lv, hint=None):
        r = None
        for c, cell, path in reversed(lv.alts):
            v = self.st.store.get(cell, UNDEF)
            for i, comp in enumerate(path):
                v = self.getc(v, comp, hint if i == len(path) - 1 else None)
                if isinstance(v, Ptr) and i < len(path) - 1 and v.off is None and False:
                    v = self.read(v.lv)
            r = v if r is None else self.vite(c, v, r)
        if isinstance(r, View):
            return self.view_arr(r)
        return r if r is not None else UNDEF

    def view_arr(self, v):
        base = self.read(v.lv)
        return Arr('seq', None, v.n, {num(i): self.getc(base, ('i', add(v.off, num(i)))) for i in range(int(v.n.args[0]))})

    def through_view(self, lv):
        """(view, remaining path) when the location lies in a vector that refers to
        other storage"""
        if len(lv.alts) != 1:
            return None
        _, cell, path = lv.alts[0]
        v = self.st.store.get(cell, UNDEF)
        for i, comp in enumerate(path):
            if isinstance(v, View):
                return v, path[i:]
            if isinstance(v, Ptr) and v.off is None:
                return self.through_view(LV(alts=[(c, cl, p + path[i:]) for c, cl, p in v.lv.alts]))
            if isinstance(v, Obj):
                v = v.f.get(comp[1]) if comp[0] == 'f' else None
            elif isinstance(v, Arr):
                v = v.e.get(comp[1]) if comp[0] == 'i' else None
            else:
                return None
        return (v, ()) if isinstance(v, View) else None

    def rebind(self, lv, val):
        """make a vector refer to other storage"""
        self.views = False
        self.write(lv, val)
        self.views = True

    def write(self, lv, val):
        if self.views:
            r = self.through_view(lv)
            if r is not None:
                v, path = r
                if path:
                    if path[0][0] == 'i':
                        self.write(LV(alts=[(c, cell, p + (('i', add(v.off, path[0][1])),) + tuple(path[1:])) for c, cell, p in v.lv.alts]), val)
                    return
                if isinstance(val, Arr) and val.size is v.n or isinstance(val, Term) and val.sort == 'v':
                    for i in range(int(v.n.args[0])):
                        self.write(LV(alts=[(c, cell, p + (('i', add(v.off, num(i))),)) for c, cell, p in v.lv.alts]), self.getc(val, ('i', num(i))))
                    return
                self.rebind(lv, val)
                return
        if len(lv.alts) == 1:
            _, cell, path = lv.alts[0]
            if not path:
                self.st.store[cell] = val
            else:
                self.st.store[cell] = self.putc(self.st.store.get(cell, UNDEF), path, val)
            return
        for c, cell, path in lv.alts:
            cur = self.st.store.get(cell, UNDEF)
            old = cur
            for comp in path:
                old = self.getc(old, comp)
            self.st.store[cell] = self.putc(cur, path, self.vite(c, val, old)) if path else self.vite(c, val, old)

    # ------------------------------------------------------------ states
    def merge_into(self, c, s1, s2):
        """join of two states discriminated by condition c"""
        if s1.dead and s2.dead:
            return State(s1.store, FALSE, True)
        if s1.dead:
            return s2
        if s2.dead:
            return s1
        store = {}
        for k, v in s1.store.items():
            w = s2.store.get(k, v)
            store[k] = v if v is w else self.vite(c, v, w)
        for k, w in s2.store.items():
            if k not in store:
                store[k] = w
        return State(store, b_or(s1.pc, s2.pc))

    def abs_pc(self):
        r = self.st.pc
        for p in reversed(self.pcstack):
            r = b_and(p, r)
        return r

    def event(self, name, obj, args, ln):
        fn = self.frames[-1].fn['q'] if self.frames and self.frames[-1].fn else '?'
        e = Event(self.abs_pc(), tuple(self.loopctx), name, obj, args, ln, fn)
        e.store = None
        self.events.append(e)
        return e

    # ----------------------------------------------------------- running
    def unbounded(self, usr):
        """a recursion whose depth the conditions met so far do not decide"""
        at = [i for i, f in enumerate(self.frames) if f.fn and f.fn['usr'] == usr]
        if len(at) < 2:
            return False
        return self.st.pc is not TRUE or any(c is not TRUE for c in self.pcstack[len(self.pcstack) - (len(self.frames) - 1 - at[0]):])

    def call_function(self, fn, args, this=None, retlv=False):
        """args: list of values or LVs (LV for reference params).  Returns value
        (or LV when the function returns a reference and retlv)."""
        if len(self.frames) > self.inline_depth or self.unbounded(fn['usr']):
            return mk('app', ('rec:' + fn['q'],) + tuple(self.term(self.read(a) if isinstance(a, LV) else a) for a in args), sort_of(fn['rt'], fn['ret']))
        env = {}
        fr = Frame(fn, env, this)
        self.visited[fn['usr']] = self.visited.get(fn['usr'], 0) + 1
        for p, a in zip(fn['params'], args):
            if isinstance(a, LV) and p['ref']:
                env[p['id']] = a
            else:
                if isinstance(a, LV):
                    a = self.read(a)
                env[p['id']] = LV(self.new_cell(a, p['name']))
        for p in fn['params'][len(args):]:
            if 'def' in p:
                self.frames.append(fr)
                env[p['id']] = LV(self.new_cell(self.eval(p['def']), p['name']))
                self.frames.pop()
            else:
                env[p['id']] = LV(self.new_cell(sym('missing:' + p['name'], sort_of(p['t'], p['T']))))
        self.frames.append(fr)
        pc0 = self.st.pc
        self.pcstack.append(pc0)
        self.st = State(dict(self.st.store), TRUE)
        try:
            if fn.get('ctor'):
                for i in fn.get('inits', ()):
                    self.ctor_init(i, fr)
            if fn.get('body') is not None:
                self.stmt(fn['body'])
        finally:
            self.frames.pop()
            self.pcstack.pop()
        rets = list(fr.rets)
        if not self.st.dead:
            rets.append((self.st.pc, None, self.st))
        # join
        ret = None
        st = None
        for pc, v, s in reversed(rets):
            if st is None:
                st, ret = State(s.store, pc), v
            else:
                if isinstance(v, LV) or isinstance(ret, LV):
                    ret = self.lv_join(pc, v, ret)
                else:
                    ret = self.vite(pc, v, ret)
                st = self.merge_into(pc, State(s.store, pc), st)
        thr = FALSE
        for pc, T, s in fr.throws:
            thr = b_or(thr, pc)
        if self.frames:
            for pc, T, s in fr.throws:
                self.frames[-1].throws.append((b_and(pc0, pc), T, s))
        else:
            self.top_throws = [(b_and(pc0, pc), T, s) for pc, T, s in fr.throws]
        if st is None:
            self.st = State(self.st.store, FALSE, True)
            return throw(fr.throws[0][1] if fr.throws else '?')
        self.st = State(st.store, b_and(pc0, st.pc) if thr is not FALSE else pc0)
        if isinstance(ret, LV) and not retlv:
            ret = self.read(ret)
        return ret

    def lv_join(self, c, a, b):
        if a is None:
            return b
        if b is None:
            return a
        if not isinstance(a, LV):
            a = LV(self.new_cell(a))
        if not isinstance(b, LV):
            b = LV(self.new_cell(b))
        if a.alts == b.alts:
            return a
        nc = b_not(c)
        return LV(alts=[(b_and(c, x), cell, p) for x, cell, p in a.alts] + [(b_and(nc, x), cell, p) for x, cell, p in b.alts])

    def ctor_init(self, i, fr):
        this = fr.this
        if 'field' in i:
            src = i['e']
            if i.get('T', '').endswith('&') and src.get('k') == 'init' and len(src.get('elts', ())) == 1:
                src = src['elts'][0]
            con = src
            while con.get('k') == 'init' and len(con.get('elts', ())) == 1 and con['elts'][0].get('k') in ('init', 'construct'):
                con = con['elts'][0]
            if con.get('k') == 'construct' and not con.get('copy') and con['T'].replace('const ', '') == i.get('T', '').replace('const ', '') and con['T'] not in self.opaque:
                f = self.p.fn.get(con['usr'])
                if f is not None and f.get('body') is not None and not f.get('defaulted'):
                    # built in place: addresses of its parts stay valid
                    at = this.ext(('f', i['field']))
                    args = self.args_for(f['params'], con['args'])
                    if not self.st.dead:
                        self.write(at, Obj(con['T'], None, {}))
                        self.call_function(f, args, at)
                    return
            v = self.init_value(src, i.get('T'))
            if i.get('T', '').endswith('&') and src.get('k') in ('ref', 'member', 'un', 'mcall', 'call', 'opcall', 'sub', 'cond'):
                # a reference member aliases its initialiser
                v = Ptr(self.lval(src))
                self.write(this.ext(('f', i['field'])), v)
                return
            self.write(this.ext(('f', i['field'])), v)
        elif 'base' in i or 'deleg' in i:
            e = i['e']
            if e.get('k') == 'construct':
                f = self.p.fn.get(e['usr'])
                if f is not None and f.get('body') is not None:
                    args = self.args_for(f['params'], e['args'])
                    self.call_function(f, args, this)
                elif 'copy' in e and e['args']:
                    pass
                else:
                    r = self.p.rec.get(e['T'])
                    if r:
                        self.default_fields(this, r)
                    else:
                        self.write(this.ext(('f', '__base')), mk('app', ('new:' + strip_t(e['T']),) + tuple(self.term(self.eval(a)) for a in e['args'])))

    def default_fields(self, this, r):
        for b in r['bases']:
            if b in self.p.rec:
                self.default_fields(this, self.p.rec[b])
        for f in r['fields']:
            if 'init' in f:
                # default member initialisers see the object under construction
                self.frames.append(Frame(self.frames[-1].fn if self.frames else None, {}, this))
                v = self.init_value(f['init'], f['T'])
                self.frames.pop()
            else:
                v = self.default_value(f['T'], f['t'])
            self.write(this.ext(('f', f['name'])), v)

    def default_value(self, T, cat=None, n=None):
        t = T.replace('const ', '').strip()
        h = self.models.get('default')
        if h is not None:
            r = h(self, t)
            if r is not None:
                return r
        if cat == 'a' and n is not None:
            return Arr('seq', None, num(n), {}, UNDEF)
        if t.endswith(']'):
            inner, k = t[:-1].rsplit('[', 1)
            if k.isdigit():
                inner = inner.strip()
                if inner.endswith(']') or is_vec_type(inner) or inner in self.p.rec or inner.startswith('std::'):
                    return Arr('seq', None, num(int(k)), {num(i): self.default_value(inner, None) for i in range(int(k))}, UNDEF)
                return Arr('seq', None, num(int(k)), {}, UNDEF)
        if t.startswith(('std::vector<', 'mfem::Vector', 'mfem::Array<', 'std::deque', 'std::list', 'mfem::GridFunction', 'mfem::ParGridFunction')):
            return Arr('seq', None, ZERO, {}, None)
        if t.startswith('std::array<'):
            m = t.rstrip('>').rsplit(',', 1)[-1].strip()
            try:
                nn = int(m.rstrip('UL'))
            except ValueError:
                return mk('app', ('new:std::array',))
            inner = t[len('std::array<'):].rsplit(',', 1)[0]
            if is_vec_type(inner) or inner in self.p.rec or inner.startswith('std::'):
                return Arr('seq', None, num(nn), {num(i): self.default_value(inner, None) for i in range(nn)}, UNDEF)
            return Arr('seq', None, num(nn), {}, UNDEF)
        if t.startswith(('std::map<', 'std::unordered_map<', 'std::multimap<')):
            return Arr('map', None, ZERO, {}, None)
        if t.startswith(('std::set<', 'std::unordered_set<')):
            return Arr('set', None, ZERO, {}, None)
        if t.startswith(('std::unique_ptr', 'std::shared_ptr')):
            return NULL
        if t.startswith('std::optional'):
            return mk('app', ('nullopt',))
        if 'basic_string' in t and t.startswith('std::'):
            if 'stringstream' in t or 'fstream' in t:
                return mk('app', ('new:' + strip_t(t),))
            return string('')
        if t.startswith('std::pair<'):
            ts = template_args(t)
            if len(ts) == 2:
                return Obj('std::pair', None, {n: self.default_value(x) for n, x in zip(('first', 'second'), ts) if is_vec_type(x) or x.startswith('std::') or x in self.p.rec})
        if t.startswith('std::pair<') or t.startswith('std::tuple<'):
            return Obj(t, None, {})
        r = self.p.rec.get(t)
        if r is not None:
            ctor = [f for f in self.p.fn.values() if f.get('cls') == t and f.get('ctor') and not f['params'] and f.get('body') is not None]
            if ctor:
                c = self.new_cell(Obj(t, None, {}))
                self.call_function(ctor[0], [], LV(c))
                return self.st.store[c]
            c = self.new_cell(Obj(t, None, {}))
            self.default_fields(LV(c), r)
            return self.st.store[c]
        if cat in ('d', 'i', 'b', 'e', 'p'):
            return UNDEF
        return mk('app', ('new:' + strip_t(t),))

    def init_value(self, e, T=None):
        if e is None:
            return UNDEF
        return self.eval(e, T)

    # -------------------------------------------------------- statements
    def stmt(self, s):
        if s is None or self.st.dead:
            return
        self.nstmts += 1
        m = getattr(self, 's_' + s['k'], None)
        if m is None:
            raise Unsupported('statement %s at line %s' % (s['k'], s.get('ln')))
        m(s)

    def s_block(self, s):
        for x in s['b']:
            if self.st.dead:
                return
            self.stmt(x)

    def s_nop(self, s):
        pass

    def s_unk(self, s):
        for k in s.get('kids', ()):
            if k is None:
                continue
            if k.get('k') in ('expr', 'block', 'decl'):
                self.stmt(k)
            else:
                self.eval(k)

    def s_expr(self, s):
        self.eval(s['e'])

    def s_decl(self, s):
        for v in s['vars']:
            self.declare(v)

    def declare(self, v):
        env = self.frames[-1].env
        if v.get('static'):
            key = (self.frames[-1].fn['usr'] if self.frames[-1].fn else None, v['name'])
            if key not in self.statics:
                self.statics[key] = self.new_cell(self.init_value(v.get('init'), v['T']) if v.get('init') is not None else self.default_value(v['T'], v['t']))
            env[v['id']] = LV(self.statics[key])
            return
        if v.get('binds'):
            init = v.get('init')
            if v.get('ref') or True:
                base = self.lval(init) if v.get('ref') else LV(self.new_cell(self.eval(init)))
            bn = len(v['binds'])
            val0 = self.read(base)
            for i, b in enumerate(v['binds']):
                comp = ('f', ('first', 'second')[i]) if bn == 2 and self._pairlike(val0, v['T']) else self._bind_comp(v['T'], i)
                lv = base.ext(comp)
                env[b['id']] = lv
                if 'hid' in b:
                    env[b['hid']] = lv
            return
        if v.get('ref') and v.get('init') is not None:
            e = v['init']
            while e['k'] == 'init' and len(e['elts']) == 1 and bare(e['elts'][0].get('T')) == bare(e.get('T')):
                e = e['elts'][0]        # reference bound with braces
            env[v['id']] = self.lval(e)
            return
        if v.get('init') is not None:
            val = self.init_value(v['init'], v['T'])
            if val is None:
                val = UNDEF
            if isinstance(val, Arr) and v['t'] == 'p' and v['init'].get('k') == 'ref' and v['init'].get('t') == 'a' and self.var_lv(v['init']) is not None:
                val = Ptr(self.var_lv(v['init']), ZERO)
        else:
            val = self.default_value(v['T'], v['t'], v.get('n'))
        lv = env[v['id']] = LV(self.new_cell(val, v['name']))
        if isinstance(val, Clo) and any(c.get('id') == v['id'] and c.get('byref') for c in val.node['caps']):
            val.env[v['id']] = lv       # a local function that calls itself

    def _pairlike(self, v, T):
        T = T.replace('const ', '')
        return T.startswith('std::pair')or 'std::pair' in T[:14] or 'std::tuple' not in T

    def _bind_comp(self, T, i):
        t = T.replace('const ', '').rstrip('& ')
        r = self.p.rec.get(t)
        if r:
            return ('f', r['fields'][i]['name'])
        return ('f', 'get%d' % i)

    def cond(self, e):
        v = self.eval(e)
        t = self.truth(v)
        return t

    def truth(self, v):
        if isinstance(v, Term):
            return as_bool(v)
        if isinstance(v, VIte):
            return ite(v.c, self.truth(v.a), self.truth(v.b))
        if isinstance(v, (Ptr, Clo, FnRef)):
            return TRUE
        if isinstance(v, Obj) and '#ok' in v.f:
            return as_bool(v.f['#ok'])
        if isinstance(v, Obj) or isinstance(v, Arr):
            return as_bool(self.term(v))
        return as_bool(self.term(v))

    def split_throw(self, c):
        return c

    def s_if(self, s):
        if 'init' in s:
            self.stmt(s['init'])
        if 'cvar' in s:
            self.declare(s['cvar'])
        c = self.cond(s['c'])
        if self.st.dead:
            return
        self.branch(c, lambda: self.stmt(s['a']), (lambda: self.stmt(s['b'])) if s.get('b') else None, s)

    def branch(self, c, fa, fb, s=None):
        if c is TRUE:
            fa()
            return
        if c is FALSE:
            if fb:
                fb()
            return
        pc = self.st.pc
        s1 = self.st.fork(b_and(pc, c))
        s2 = self.st.fork(b_and(pc, b_not(c)))
        if s1.pc is FALSE:
            self.st = s2
            if fb:
                fb()
            return
        if s2.pc is FALSE:
            self.st = s1
            fa()
            return
        self.st = s1
        fa()
        s1 = self.st
        self.st = s2
        if fb:
            fb()
        s2 = self.st
        self.st = self.merge_into(c, s1, s2)

    def s_return(self, s):
        fr = self.frames[-1]
        v = None
        if s.get('e') is not None:
            if fr.fn is not None and fr.fn.get('rref'):
                v = self.lval(s['e'])
            else:
                v = self.eval(s['e'], fr.fn.get('ret') if fr.fn else None)
        if self.st.dead:
            return
        fr.rets.append((self.st.pc, v, State(dict(self.st.store), self.st.pc)))
        self.st = State(self.st.store, FALSE, True)

    def do_throw(self, T):
        fr = self.frames[-1]
        fr.throws.append((self.st.pc, T, State(dict(self.st.store), self.st.pc)))
        self.st = State(self.st.store, FALSE, True)

    def s_break(self, s):
        fr = self.frames[-1]
        fr.loops[-1].breaks.append((self.st.pc, State(dict(self.st.store), self.st.pc)))
        self.st = State(self.st.store, FALSE, True)

    def s_continue(self, s):
        fr = self.frames[-1]
        for lf in reversed(fr.loops):
            if lf.conts is not None:
                lf.conts.append((self.st.pc, State(dict(self.st.store), self.st.pc)))
                break
        self.st = State(self.st.store, FALSE, True)

    def join_list(self, lst, st):
        """join early outcomes (pc, state) with normal state st"""
        for pc, s in reversed(lst):
            s = State(s.store, pc)
            st = self.merge_into(pc, s, st)
        return st

    def s_switch(self, s):
        if 'init' in s:
            self.stmt(s['init'])
        v = self.eval(s['c'])
        if self.st.dead:
            return
        t = self.term(v)
        body = s['b']['b'] if s['b']['k'] == 'block' else [s['b']]
        # flatten into labelled statement list
        flat = []      # (labels or None, stmt)

        def put(x):
            labels = []
            while x is not None and x['k'] in ('case', 'default'):
                if x['k'] == 'case':
                    labels.append(x['v'])
                else:
                    labels.append('default')
                x = x['s']
            flat.append((labels, x))
        for x in body:
            if x is None:
                continue
            put(x)
        eqs = []
        allc = FALSE
        for i, (labels, x) in enumerate(flat):
            for l in labels:
                if l != 'default':
                    c = b_eq(t, self.term(self.eval(l)))
                    eqs.append((i, c))
                    allc = b_or(allc, c)
        fr = self.frames[-1]
        lf = LoopFrame()
        lf.conts = None
        fr.loops.append(lf)
        # fall through: run each entry point from its label under its condition
        entries = {}
        for i, c in eqs:
            entries[i] = b_or(entries.get(i, FALSE), c)
        dflt = None
        for i, (labels, x) in enumerate(flat):
            if 'default' in labels:
                dflt = i
                entries[i] = b_or(entries.get(i, FALSE), b_not(allc))
        pc = self.st.pc
        start = self.st
        outs = []
        covered = FALSE
        for i, c in entries.items():
            pci = b_and(pc, c)
            covered = b_or(covered, c)
            if pci is FALSE:
                continue
            self.st = State(dict(start.store), pci)
            nb = len(lf.breaks)
            for labels, x in flat[i:]:
                if self.st.dead:
                    break
                self.stmt(x)
            st = self.join_list(lf.breaks[nb:], self.st)
            del lf.breaks[nb:]
            outs.append((c, st))
        fr.loops.pop()
        rest = b_and(pc, b_not(covered))
        if rest is not FALSE:
            res = State(dict(start.store), rest)
        else:
            res = State(start.store, FALSE, True)
        for c, st in reversed(outs):
            res = self.merge_into(c, st, res)
        self.st = res

    def s_case(self, s):
        self.stmt(s['s'])
    s_default = s_case

    def s_try(self, s):
        fr = self.frames[-1]
        n0 = len(fr.throws)
        self.stmt(s['b'])
        caught = fr.throws[n0:]
        del fr.throws[n0:]
        if not caught or not s['h']:
            fr.throws += caught
            return
        st = self.st
        for pc, T, ts in caught:
            self.st = State(dict(ts.store), pc)
            self.stmt(s['h'][0]['b'])
            st = self.merge_into(pc, self.st, st)
        self.st = st

    def s_omp(self, s):
        if s.get('b') is not None:
            self.stmt(s['b'])

    # --------------------------------------------------------------- loops
    def s_for(self, s):
        if 'init' in s:
            self.stmt(s['init'])
        if self.st.dead:
            return
        self.loop(s, lambda: self.cond(s['c']) if s.get('c') else TRUE, lambda: self.stmt(s['b']),
                  (lambda: self.eval(s['inc'])) if s.get('inc') else None)

    def s_while(self, s):
        def c():
            if 'cvar' in s:
                self.declare(s['cvar'])
            return self.cond(s['c'])
        self.loop(s, c, lambda: self.stmt(s['b']), None)

    def s_do(self, s):
        # first iteration unconditionally, then a while loop
        fr = self.frames[-1]
        first = [True]

        def c():
            if first[0]:
                return TRUE
            return self.cond(s['c'])
        # body; while (c) body
        lf = LoopFrame()
        fr.loops.append(lf)
        self.stmt(s['b'])
        self.st = self.join_list(lf.conts, self.st)
        fr.loops.pop()
        brk = lf.breaks
        if not self.st.dead:
            self.loop(s, lambda: self.cond(s['c']), lambda: self.stmt(s['b']), None)
        self.st = self.join_list(brk, self.st)

    def snapshot(self):
        fr = self.frames[-1]
        return (dict(self.st.store), self.st.pc, [len(f.rets) for f in self.frames], [len(f.throws) for f in self.frames], len(self.events), dict(fr.env), self.ncell)

    def restore(self, sn):
        store, pc, nr, nt, ne, env, nc = sn
        self.st = State(dict(store), pc)
        for f, a, b in zip(self.frames, nr, nt):
            del f.rets[a:]
            del f.throws[b:]
        del self.events[ne:]
        self.frames[-1].env.clear()
        self.frames[-1].env.update(env)

    def run_body(self, cond, body, inc):
        """one iteration; returns (cond, break list); leaves st at end of iteration"""
        fr = self.frames[-1]
        c = cond()
        if self.st.dead or c is FALSE:
            return c, []
        if c is not TRUE:
            self.st = self.st.fork(b_and(self.st.pc, c))
        lf = LoopFrame()
        fr.loops.append(lf)
        try:
            body()
        finally:
            fr.loops.pop()
        self.st = self.join_list(lf.conts, self.st)
        if not self.st.dead and inc:
            inc()
        return c, lf.breaks

    def loop(self, s, cond, body, inc, elems=None):
        fr = self.frames[-1]
        sn = self.snapshot()
        # 1. constant trip count: unroll
        brk = []
        n = 0
        ok = True
        while True:
            before = self.st
            c, b = self.run_body(cond, body, inc)
            if c is FALSE:
                if self.st.dead and not before.dead:
                    self.st = before
                break
            if c is not TRUE:
                ok = False
                break
            brk += b
            n += 1
            if self.st.dead:
                break
            if n > MAX_UNROLL:
                ok = False
                break
        if ok:
            self.st = self.join_list(brk, self.st)
            return
        self.restore(sn)
        self.sym_loop(s, cond, body, inc)

    def s_rfor(self, s):
        if 'init' in s:
            self.stmt(s['init'])
        lv = self.lval(s['r'])
        v = self.read(lv)
        if isinstance(v, Obj) and v.cls:
            # user-defined range: the container behind begin()
            fb = [f for f in self.p.fn.values() if f.get('cls') == v.cls and f['name'] == 'begin' and not f['params'] and f.get('body') is not None]
            if fb:
                it = self.call_function(fb[0], [], lv)
                if isinstance(it, It) and it.i is ZERO:
                    lv = it.lv
                    v = self.read(lv)
        env = self.frames[-1].env

        def bind(elem_lv):
            d = s['v']
            if d.get('binds'):
                base = elem_lv
                bn = len(d['binds'])
                for i, b in enumerate(d['binds']):
                    comp = ('f', ('first', 'second')[i]) if bn == 2 and 'tuple' not in d['T'][:20] and self.p.rec.get(d['T'].replace('const ', '').rstrip('& ')) is None else self._bind_comp(d['T'], i)
                    x = base.ext(comp)
                    if not d.get('ref'):
                        x = LV(self.new_cell(self.read(x)))
                    env[b['id']] = x
                    if 'hid' in b:
                        env[b['hid']] = x
                return
            if d.get('ref'):
                env[d['id']] = elem_lv
            else:
                env[d['id']] = LV(self.new_cell(self.read(elem_lv, (d['t'], d['T'])), d['name']))
        if isinstance(v, VIte) and isinstance(v.a, Arr) and isinstance(v.b, Arr):
            pass
        if isinstance(v, Arr) and v.concrete() and (v.kind in ('map', 'set') or is_num(v.size)) and val(v.size) <= MAX_UNROLL:
            fr = self.frames[-1]
            brk = []
            keys = map_order(v.e) if v.kind in ('map', 'set') else [num(i) for i in range(int(val(v.size)))]
            for k in keys:
                if self.st.dead:
                    break
                if v.kind == 'map':
                    el = lv.ext(('i', k))
                    d = s['v']
                    if d.get('binds') and d.get('ref'):
                        for b, x in zip(d['binds'], (LV(self.new_cell(k)), el)):
                            env[b['id']] = x
                            if 'hid' in b:
                                env[b['hid']] = x
                    elif d.get('ref'):
                        # element pair: second aliases the mapped value
                        bind(LV(self.new_cell(Obj('std::pair', None, {'first': self.locs.get(k, k), 'second': Ptr(el)}))))
                    else:
                        bind(LV(self.new_cell(Obj('std::pair', None, {'first': self.locs.get(k, k), 'second': self.read(el)}))))
                elif v.kind == 'set':
                    bind(LV(self.new_cell(k)))
                else:
                    bind(lv.ext(('i', k)))
                lf = LoopFrame()
                fr.loops.append(lf)
                self.stmt(s['b'])
                fr.loops.pop()
                self.st = self.join_list(lf.conts, self.st)
                brk += lf.breaks
            self.st = self.join_list(brk, self.st)
            return
        # symbolic range
        n = self.size_of(v)
        k = LV(self.new_cell(ZERO))
        d = s['v']

        def cond():
            return b_lt(self.term(self.read(k)), n, True)

        def body():
            i = self.term(self.read(k))
            bind(lv.ext(('i', i)))
            self.stmt(s['b'])

        def inc():
            self.write(k, add(self.term(self.read(k)), ONE))
        self.sym_loop(s, cond, body, inc)

    def size_of(self, v):
        if isinstance(v, Arr):
            return v.size
        if isinstance(v, View):
            return v.n
        if isinstance(v, VIte):
            return ite(v.c, self.size_of(v.a), self.size_of(v.b))
        if isinstance(v, Obj) and 'size' in v.f:
            return v.f['size']
        t = self.term(v)

        def f(x):
            if x.op == 'app' and x.args[0] == 'upd':
                return f(x.args[1])
            if x.op == 'app' and x.args[0] == 'arr':
                return x.args[2]
            if x.op == 'app' and x.args[0] == 'zeros':
                return x.args[1]
            if x.op == 'app' and x.args[0] in ('lstore', 'setsub', 'addsub'):
                return f(x.args[1])
            if x.op == 'poly' and x.sort == 'v':
                for m, c in x.args:
                    for a, e in m:
                        if a.sort == 'v':
                            return f(a)
            return mk('app', ('size', x), 'n')
        return lift1(f, t) if t.op == 'ite' else f(t)

    def diff(self, a, b, path=()):
        """leaf paths at which two values differ"""
        if a is b:
            return []
        if isinstance(a, Obj) and isinstance(b, Obj) and a.cls == b.cls and a.base is b.base:
            out = []
            for k in list(a.f) + [k for k in b.f if k not in a.f]:
                out += self.diff(self.getc(a, ('f', k)), self.getc(b, ('f', k)), path + (('f', k),))
            return out
        if isinstance(b, Obj) and isinstance(a, Term) and b.base is a:
            return self.diff(Obj(b.cls, a, {}), b, path)
        if isinstance(a, Arr) and isinstance(b, Arr) and a.concrete() and b.concrete() and a.size is b.size and a.kind == b.kind:
            out = []
            for k in list(a.e) + [k for k in b.e if k not in a.e]:
                if not const_like(k):
                    return [path]
            for k in list(a.e) + [k for k in b.e if k not in a.e]:
                out += self.diff(self.getc(a, ('i', k)), self.getc(b, ('i', k)), path + (('i', k),))
            return out
        try:
            if self.term(a) is self.term(b):
                return []
        except RecursionError:
            pass
        return [path]

    def sym_loop(self, s, cond, body, inc):
        """recurrence summary of a loop whose trip count is not constant"""
        self.depth += 1
        bv = sym('i%d' % self.depth, 'n')
        try:
            self._sym_loop(s, cond, body, inc, bv)
        finally:
            self.depth -= 1

    def _sym_loop(self, s, cond, body, inc, bv):
        fr = self.frames[-1]
        sn = self.snapshot()
        entry = dict(self.st.store)
        base_cells = set(entry)
        mod = {}          # (cell, path) -> rec symbol
        closed = {}       # (cell, path) -> closed-form value in bv

        def at(store, key):
            v = store.get(key[0], UNDEF)
            for c in key[1]:
                v = self.getc(v, c)
            return v

        def install():
            self.restore(sn)
            self.pcstack.append(self.st.pc)
            self.st.pc = TRUE
            self.loopctx.append((bv, None))
            for key, r in mod.items():
                self.write(LV(key[0], key[1]), closed.get(key, r))

        def uninstall():
            self.pcstack.pop()
            self.loopctx.pop()

        rounds = 0
        while True:
            rounds += 1
            install()
            start = dict(self.st.store)
            nr = [len(f.rets) for f in self.frames]
            nt = [len(f.throws) for f in self.frames]
            ne = len(self.events)
            c, brk = self.run_body(cond, body, inc)
            end = self.st
            rets = [f.rets[a:] for f, a in zip(self.frames, nr)]
            thr = [f.throws[a:] for f, a in zip(self.frames, nt)]
            for f, a, b in zip(self.frames, nr, nt):
                del f.rets[a:]
                del f.throws[b:]
            uninstall()
            grown = False
            exits = [end] if not end.dead else []
            cand = exits + [st for _, st in brk]
            for st in cand:
                for cell in base_cells:
                    if cell not in st.store:
                        continue
                    for pth in self.diff(start.get(cell), st.store[cell]):
                        key = (cell, pth)
                        # keep only the shortest paths
                        if any(k[0] == cell and pth[:len(k[1])] == k[1] for k in mod):
                            continue
                        for k in [k for k in mod if k[0] == cell and k[1][:len(pth)] == pth]:
                            del mod[k]
                            closed.pop(k, None)
                        v0 = at(entry, key)
                        srt = v0.sort if isinstance(v0, Term) else ('v' if isinstance(v0, Arr) else None)
                        mod[key] = mk('rec', (bv, len(mod)), srt)
                        grown = True
            if rounds > 12:
                break
            if grown:
                closed.clear()
                continue
            # induction variables
            if not end.dead:
                newc = False
                recs = set(mod.values())
                for key, r in mod.items():
                    if key in closed:
                        continue
                    sv = at(end.store, key)
                    if not isinstance(sv, Term) or sv.sort not in ('n', None) or sv.op == 'ite':
                        continue
                    v0 = at(entry, key)
                    if not isinstance(v0, Term):
                        continue
                    d = sub(sv, r)
                    if d.op == 'num' or not contains(d, lambda x: x in recs or x is bv):
                        if d.op == 'ite' or contains(d, lambda x: x.op == 'rec'):
                            continue
                        closed[key] = add(v0, mul(bv, d))
                        newc = True
                if newc:
                    continue
            break
        n = self.trip_count(c, bv, set(mod.values()))
        recs = set(mod.values())
        # early exits
        anyret = FALSE
        for lst in rets + thr:
            for pc, v, st in lst:
                anyret = b_or(anyret, pc)
        anybrk = FALSE
        for pc, st in brk:
            anybrk = b_or(anybrk, pc)
        # final store
        post = dict(entry)
        self.st = State(dict(sn[0]), sn[1])
        early = b_or(anyret, anybrk)
        bound = n
        if anybrk is not FALSE:
            bound = mk('app', ('first', bv, n, anybrk), 'n')
        finals = {}
        if not end.dead:
            steps = {key: at(end.store, key) for key in mod}
            for key, r in mod.items():
                v0 = at(entry, key)
                if key in closed:
                    finals[key] = replace(closed[key], {bv: bound})
                else:
                    finals[key] = self.summarise(key, r, v0, steps, mod, closed, entry, bv, bound, at)
        else:
            for key, r in mod.items():
                finals[key] = at(entry, key)
        for key, v in finals.items():
            self.write(LV(key[0], key[1]), v)
        # values at a break
        if brk:
            exist = mk('app', ('exists', bv, n, anybrk), 'b')
            exist = as_bool(exist)
            first = bound
            bst = None
            for pc, st in reversed(brk):
                bst = State(st.store, pc) if bst is None else self.merge_into(pc, State(st.store, pc), bst)
            pre = dict(self.st.store)
            sub_map = {bv: first}
            for key, r in mod.items():
                if key in finals and isinstance(finals[key], Term):
                    sub_map[r] = finals[key]
            for key in mod:
                bvval = at(bst.store, key)
                if bvval is mod[key]:
                    continue
                nv = self.subst(bvval, sub_map)
                self.write(LV(key[0], key[1]), self.vite(exist, nv, at(pre, key)))
        # returns / throws inside the loop
        pc0 = sn[1]
        if anyret is not FALSE:
            exist = as_bool(mk('app', ('exists', bv, n, anyret), 'b'))
            first = mk('app', ('first', bv, n, anyret), 'n')
            sub_map = {bv: first}
            for key, r in mod.items():
                if key in finals and isinstance(finals[key], Term):
                    sub_map[r] = finals[key]
            for f, lst in zip(self.frames, rets):
                for pc, v, st in lst:
                    pcf = self.subst_t(pc, sub_map)
                    vv = self.subst(v, sub_map) if v is not None and not isinstance(v, LV) else v
                    f.rets.append((b_and(pc0, b_and(exist, pcf if len(lst) + sum(map(len, thr)) > 1 else TRUE)), vv, State(dict(self.st.store), TRUE)))
            for f, lst in zip(self.frames, thr):
                for pc, T, st in lst:
                    pcf = self.subst_t(pc, sub_map)
                    f.throws.append((b_and(pc0, b_and(exist, pcf if len(lst) + sum(map(len, rets)) > 1 else TRUE)), T, State(dict(self.st.store), TRUE)))
            self.st.pc = b_and(pc0, b_not(exist))
        # patch loop context of events recorded in the final pass
        for e in self.events[ne:]:
            e.loops = tuple((b, n if b is bv and x is None else x) for b, x in e.loops)
        if end.dead and not brk and anyret is not FALSE and False:
            self.st.dead = True

    def subst_t(self, t, mp):
        return replace(t, mp)

    def subst(self, v, mp):
        if isinstance(v, Term):
            return replace(v, mp)
        if isinstance(v, Obj):
            return Obj(v.cls, replace(v.base, mp) if v.base is not None else None, {k: self.subst(x, mp) for k, x in v.f.items()})
        if isinstance(v, Arr):
            return Arr(v.kind, replace(v.base, mp) if v.base is not None else None, replace(v.size, mp), {replace(k, mp): self.subst(x, mp) for k, x in v.e.items()}, self.subst(v.fill, mp) if v.fill is not None else None)
        if isinstance(v, VIte):
            return self.vite(replace(v.c, mp), self.subst(v.a, mp), self.subst(v.b, mp))
        return v

    def trip_count(self, c, bv, recs):
        """number of iterations from the loop condition"""
        if c is TRUE or c is FALSE:
            return mk('app', ('forever',), 'n')
        if c.op == 'ite' and c.args[1] in (TRUE, FALSE) and c.args[2] in (TRUE, FALSE):
            a, pos = c.args[0], c.args[1] is TRUE
            if a.op in ('le', 'lt', 'eq') and not contains(a, lambda x: x in recs):
                q, r = a.args
                d = TM._poly(q)
                lin = {m: k for m, k in d.items() if any(x is bv for x, e in m)}
                if len(lin) == 1:
                    (m, k), = lin.items()
                    if len(m) == 1 and m[0][1] == 1:
                        rest = sub(q, mul(num(k), bv))
                        if a.op == 'le' and pos and k > 0:
                            b = div(sub(r, rest), num(k))
                            if k == 1:
                                return add(b, ONE)
                        if a.op == 'le' and not pos and k < 0:
                            # not(rest + k*i <= r)  <=> i < (r-rest)/k
                            return div(sub(r, rest), num(k))
                        if a.op == 'eq' and not pos:
                            return div(sub(r, rest), num(k))
                        if a.op == 'lt' and pos and k > 0:
                            return mk('app', ('ceil', div(sub(r, rest), num(k))), 'n')
        return mk('app', ('while', bv, c), 'n')

    def summarise(self, key, r, v0, steps, mod, closed, entry, bv, n, at):
        recs = set(mod.values())
        sv = steps[key]
        t = self.term(sv)
        if t is r:
            return v0
        v0t = self.term(v0)
        free = lambda x: not contains(x, lambda y: y.op == 'rec' and y in recs)
        # accumulations
        if sv is not None and t.op in ('poly', 'sym', 'app', 'num', 'rec'):
            d = sub(t, r) if t.sort in ('n', 'v', 'z', None) or r.sort in ('n', 'v', 'z') else None
            if d is not None and free(d):
                return add(v0t, self.sum_over(bv, n, d))
        if t.op == 'ite':
            d = lift1(lambda x: sub(x, r) if x.sort in ('n', 'v', 'z', None) and x.op != 'throw' else x, t)
            if d is not None and free(d) and r.sort in ('n', 'v', 'z'):
                return add(v0t, self.sum_over(bv, n, d))
        # last value independent of history
        if free(t):
            if not contains(t, lambda x: x is bv):
                # assigned the same value every iteration
                return ite(b_lt(ZERO, n, True), t, v0t) if not is_num(n) else t
            return ite(b_lt(ZERO, n, True), replace(t, {bv: sub(n, ONE)}), v0t)
        # min / max
        if t.op == 'app' and t.args[0] in ('min', 'max') and len(t.args) == 3:
            o = [x for x in t.args[1:] if x is not r]
            if len(o) == 1 and free(o[0]):
                return mk('app', (t.args[0] + 'over', v0t, bv, n, o[0]), 'n')
        # element updates on an otherwise unchanged sequence
        lst = self.elem_updates(t, r)
        if lst is not None:
            old = mk('sym', ('old',), None)
            ups = []
            good = True
            for g, i, x in lst:
                x = replace(x, {mk('app', ('idx', r, i)): old})
                if not (free(x) and free(i) and free(g)):
                    good = False
                ups += [g, i, x]
            if good:
                if len(lst) == 1 and lst[0][0] is TRUE and lst[0][1] is bv and self.size_of(v0) is n and not contains(ups[2], lambda y: y is old):
                    return mk('app', ('lmap', bv, n, ups[2]), 'v')
                if len(lst) == 1 and lst[0][0] is TRUE and lst[0][1] is bv and self.size_of(v0) is n:
                    src = self._idx(v0t, bv)
                    return mk('app', ('lmap', bv, n, replace(ups[2], {old: src})), 'v')
                return mk('app', ('lstore', v0t, bv, n) + tuple(ups), 'v')
        pushes = self.pushes(t, r)
        if pushes is not None and all(free(g) and free(x) for g, x in pushes):
            a = []
            for g, x in pushes:
                a += [g, x]
            if v0t.op == 'app' and v0t.args[0] == 'arr' and len(v0t.args) == 3 and v0t.args[2] is ZERO and len(pushes) == 1 and pushes[0][0] is TRUE:
                return mk('app', ('lmap', bv, n, pushes[0][1]), 'v')
            return mk('app', ('lpush', v0t, bv, n) + tuple(a), 'v')
        # general recurrence: close over the variables it depends on
        dep = []
        work = [key]
        inv = {x: k for k, x in mod.items()}
        while work:
            k = work.pop(0)
            if k in dep:
                continue
            dep.append(k)
            for x in subterms(self.term(steps[k])):
                if x.op == 'rec' and x in inv and inv[x] not in dep and inv[x] not in closed:
                    work.append(inv[x])
        ren = {mod[k]: mk('rec', (bv, -1 - j)) for j, k in enumerate(dep)}
        parts = []
        for k in dep:
            parts += [self.term(at(entry, k)), replace(self.term(steps[k]), ren)]
        return mk('app', ('loop', bv, n) + tuple(parts), r.sort)

    def elem_updates(self, t, r):
        """t as guarded element updates of r -> [(guard, index, value)]"""
        if t is r:
            return []
        if t.op == 'app' and t.args[0] == 'upd':
            b = self.elem_updates(t.args[1], r)
            if b is None:
                return None
            out = list(b)
            for k in range(2, len(t.args), 2):
                out.append((TRUE, t.args[k], t.args[k + 1]))
            return out
        if t.op == 'app' and t.args[0] == 'lstore' and t.args[1] is r:
            return None
        if t.op == 'ite':
            a, b = self.elem_updates(t.args[1], r), self.elem_updates(t.args[2], r)
            if a is None or b is None:
                return None
            c = as_bool(t.args[0])
            return [(b_and(c, g), i, x) for g, i, x in a] + [(b_and(b_not(c), g), i, x) for g, i, x in b]
        return None

    def pushes(self, t, r):
        if t is r:
            return []
        if t.op == 'app' and t.args[0] in ('push', 'insert'):
            b = self.pushes(t.args[1], r)
            return None if b is None else b + [(TRUE, t.args[2])]
        if t.op == 'ite':
            a, b = self.pushes(t.args[1], r), self.pushes(t.args[2], r)
            if a is None or b is None:
                return None
            c = as_bool(t.args[0])
            return [(b_and(c, g), x) for g, x in a] + [(b_and(b_not(c), g), x) for g, x in b]
        return None

    def sum_over(self, bv, n, d):
        def one(x):
            r = ZERO
            for m, c in TM._poly(x).items():
                inv, dep = num(c), ONE
                for a, e in m:
                    if contains(a, lambda y: y is bv):
                        dep = mul(dep, power(a, e))
                    else:
                        inv = mul(inv, power(a, e))
                if dep is ONE:
                    r = add(r, mul(inv, n))
                else:
                    r = add(r, mul(inv, mk('app', ('sum', bv, n, dep), dep.sort)))
            return r
        if d.op == 'ite':
            if not contains_cond(d, bv):
                return lift1(one, d)
            return mk('app', ('sum', bv, n, d), d.sort)
        return one(d)

    # --------------------------------------------------------- expressions
    def eval(self, e, T=None):
        if e is None:
            return UNDEF
        if self.st.dead:
            return throw('dead')
        m = getattr(self, 'e_' + e['k'], None)
        if m is None:
            raise Unsupported('expression %s at line %s' % (e['k'], e.get('ln')))
        return m(e)

    def evalt(self, e):
        return self.term(self.eval(e))

    def e_int(self, e):
        return num(int(e['v']))

    def e_flt(self, e):
        v = Fraction(repr(float(e["v"])))
        if abs(float(v) - 3.141592653589793) < 1e-15:
            return PI
        for k in (2, 4):
            if abs(float(v) - 3.141592653589793 / k) < 1e-15:
                return div(PI, num(k))
        return num(v)

    def e_str(self, e):
        return string(e['v'])

    def e_bool(self, e):
        return TRUE if e['v'] else FALSE

    def e_char(self, e):
        return num(e['v'])

    def e_null(self, e):
        return NULL

    def e_this(self, e):
        t = self.frames[-1].this
        if t is None:
            return sym('this', 'p')
        return Ptr(t)

    def e_enumc(self, e):
        return enumc(e['q'], int(e['v']))

    def e_fref(self, e):
        return FnRef(e['usr'], e['q'])

    def e_zero(self, e):
        if e['t'] in ('d', 'i'):
            return ZERO
        if e['t'] == 'b':
            return FALSE
        if e['t'] == 'p':
            return NULL
        return self.default_value(e['T'], e['t'])

    def e_unk(self, e):
        ks = tuple(self.term(self.eval(k)) for k in e.get('kids', ()) if k is not None and k.get('k') not in ('block', 'decl', 'expr'))
        return mk('app', ('unk:' + e.get('cls', '?'),) + ks)

    def e_ref(self, e):
        lv = self.var_lv(e)
        if lv is not None:
            v = self.read(lv)
            if isinstance(v, Arr) and e.get('T', '').endswith(']'):
                return Ptr(lv, ZERO)
            return v
        return self.global_value(e)

    def var_lv(self, e):
        env = self.frames[-1].env
        return env.get(e.get('id'))

    def global_value(self, e):
        if e.get('dk') == 'global' or e.get('q'):
            u = e.get('usr')
            g = self.p.glob.get(u)
            if g is not None and g.get('init') is not None and g.get('const'):
                if u not in self.globals:
                    self.globals[u] = None
                    fr = Frame(None, {}, None)
                    fr.fn = {'q': '<global>', 'usr': '', 'rref': False}
                    self.frames.append(fr)
                    try:
                        self.globals[u] = self.eval(g['init'], g['T'])
                    finally:
                        self.frames.pop()
                if self.globals[u] is not None:
                    return self.globals[u]
            if 'cv' in e:
                return num(int(e['cv'])) if e['t'] != 'b' else (TRUE if e['cv'] else FALSE)
            if 'cvd' in e:
                return num(Fraction(str(e['cvd'])))
            return sym('::' + e.get('q', e['name']), sort_of(e.get('t'), e.get('T')))
        if 'cv' in e:
            return num(int(e['cv']))
        return sym('?' + e['name'], sort_of(e.get('t')))

    def e_member(self, e):
        if e['arrow']:
            b = self.eval(e['b'])
            lvb = self.deref(b, e['b'])
        else:
            lvb = self.lval(e['b'])
        v = self.read(lvb.ext(('f', e['name'])), (e['t'], e['T']))
        if isinstance(v, Arr) and e['T'].endswith(']'):
            return Ptr(lvb.ext(('f', e['name'])), ZERO)
        if isinstance(v, Ptr) and e['T'].endswith('&'):
            return self.read(v.lv)
        if isinstance(v, Ptr) and e['name'] == 'second' and not e['T'].endswith('*') and 'ptr' not in e['T']:
            b = self.read(lvb)
            if isinstance(b, Obj) and b.cls == 'std::pair':
                return self.read(v.lv)
        return v

    def deref(self, b, node=None):
        """pointer value -> LV"""
        if isinstance(b, Ptr):
            if b.off is None:
                return b.lv
            return b.lv.ext(('i', b.off))
        if isinstance(b, VIte):
            return self.lv_join(b.c, self.deref(b.a), self.deref(b.b))
        if isinstance(b, It):
            return self.iter_lv(b)
        t = self.term(b)
        if t.op == 'ref':
            return LV(self.new_cell(t.args[0]))
        # opaque pointer: identify the pointee with the pointer term
        key = ('deref', t.id)
        c = self.statics.get(key)
        if c is None or c not in self.st.store:
            if c is None:
                self.ncell += 1
                c = self.ncell
                self.statics[key] = c
            self.st.store[c] = t if not (t.op == 'ite') else t
        return LV(c)

    def iter_lv(self, it):
        v = self.read(it.lv)
        if isinstance(v, Arr) and v.kind in ('map', 'set') and it.found is None and it.i.op == 'num' and v.concrete():
            ks = map_order(v.e)
            n = int(val(it.i))
            if not 0 <= n < len(ks):
                return LV(self.new_cell(mk('app', ('oob', it.i))))
            if v.kind == 'set':
                return LV(self.new_cell(ks[n]))
            return LV(self.new_cell(Obj('std::pair', None, {'first': ks[n], 'second': Ptr(it.lv.ext(('i', ks[n])))})))
        if isinstance(v, Arr) and v.kind == 'map' or it.found is not None:
            elem = it.lv.ext(('i', it.i))
            return LV(self.new_cell(Obj('std::pair', None, {'first': it.i, 'second': Ptr(elem)})))
        return it.lv.ext(('i', it.i))

    def e_sub(self, e):
        return self.read(self.lval(e), (e['t'], e.get('T')))

    def e_cast(self, e):
        v = self.eval(e['e'])
        ck = e['ck']
        if ck == 'bool':
            return self.truth(v)
        if ck == 'f2i':
            t = self.term(v)

            def f(x):
                if x.op == 'num':
                    q = x.args[0]
                    return num(int(q))
                return x if is_int(x) else mk('app', ('trunc', x), 'n')
            return lift1(f, t) if t.op == 'ite' else f(t)
        if ck == 'i2f':
            if isinstance(v, Term):
                def g(x):
                    if x is TRUE:
                        return ONE
                    if x is FALSE:
                        return ZERO
                    if x.op == 'enumc':
                        return num(x.args[1])
                    return x
                return lift1(g, v) if v.op == 'ite' else g(v)
            return v
        if ck == 'void':
            return None
        return v

    def e_dyncast(self, e):
        v = self.eval(e['e'])
        T = e['T'].replace('const ', '').rstrip('*& ')
        ptr = e['T'].rstrip().endswith('*')

        def f(v):
            if isinstance(v, VIte):
                return self.vite(v.c, f(v.a), f(v.b))
            if ptr and isinstance(v, Ptr) and v.off is None:
                o = self.read(v.lv)
                if isinstance(o, Obj) and o.cls == T and any(k.startswith('#') for k in o.f):
                    return v
                if isinstance(o, Obj) and o.cls and o.base is None:
                    if o.cls == T or T in self.p.bases(o.cls):
                        return v
                    return NULL
                t = mk('app', ('dyncast', string(T), self.term(o)), 'p')
                c = self.new_cell(Obj(T, self.term(o), {}) if T in self.p.rec else self.term(o))
                return VIte(as_bool(mk('app', ('isa', string(T), self.term(o)), 'b')), Ptr(LV(c)), NULL)
            if isinstance(v, Term) and v is not NULL:
                return VIte(as_bool(mk('app', ('isa', string(T), v), 'b')), Ptr(LV(self.new_cell(Obj(T, v, {}) if T in self.p.rec else v))), NULL) if ptr else v
            return v
        return f(v)

    def lval(self, e):
        """LV of an expression (temporary when it is not an lvalue)"""
        k = e['k']
        if k == 'ref':
            lv = self.var_lv(e)
            if lv is not None:
                return lv
            if e.get('dk') == 'global':
                key = ('g', e.get('usr'))
                if key not in self.statics:
                    self.statics[key] = self.new_cell(self.global_value(e))
                c = self.statics[key]
                if c not in self.st.store:
                    self.st.store[c] = self.global_value(e)
                return LV(c)
            return LV(self.new_cell(self.global_value(e)))
        if k == 'member':
            if e['arrow']:
                lvb = self.deref(self.eval(e['b']))
            else:
                lvb = self.lval(e['b'])
            lv = lvb.ext(('f', e['name']))
            v = self.read(lv, (e['t'], e['T']))
            if e['T'].endswith('&') and isinstance(v, Ptr):
                return v.lv
            if isinstance(v, Ptr) and isinstance(self.read(lvb), Obj) and self.read(lvb).cls == 'std::pair' and not e['T'].endswith('*') and 'ptr' not in e['T']:
                return v.lv
            # make sure typed opaque fields become objects
            if isinstance(v, Obj) and v.base is not None and not v.f:
                pass
            return lv
        if k == 'sub':
            b = self.eval(e['b']) if e['b'].get('k') != 'ref' else self.eval(e['b'])
            i = self.term(self.eval(e['i']))
            bl = None
            if isinstance(b, Ptr):
                if b.off is None:
                    # pointer to object used as array base, or native array decay
                    return b.lv.ext(('i', i))
                return b.lv.ext(('i', add(b.off, i)))
            if isinstance(b, It):
                return b.lv.ext(('i', add(b.i, i)))
            if isinstance(b, Arr) or e['b']['k'] in ('ref', 'member', 'sub'):
                bl = self.lval(e['b'])
                return bl.ext(('i', i))
            return LV(self.new_cell(b)).ext(('i', i))
        if k == 'un' and e['op'] == '*':
            return self.deref(self.eval(e['e']))
        if k == 'un' and e['op'] in ('++', '--'):
            self.eval(e)
            return self.lval(e['e'])
        if k in ('assign', 'cassign'):
            self.eval(e)
            return self.lval(e['l'])
        if k == 'cond':
            c = self.cond(e['c'])
            if c is TRUE:
                return self.lval(e['a'])
            if c is FALSE:
                return self.lval(e['b'])
            return self.lv_join(c, self.lval(e['a']), self.lval(e['b']))
        if k == 'bin' and e['op'] == ',':
            self.eval(e['l'])
            return self.lval(e['r'])
        if k == 'cast' and e['ck'] in ('ptr',):
            return self.lval(e['e'])
        if k in ('mcall', 'opcall', 'call'):
            r = self.call(e, want_lv=True)
            if isinstance(r, LV):
                return r
            return LV(self.new_cell(r))
        if k == 'this':
            return LV(self.new_cell(self.eval(e)))
        if k == 'construct' and e.get('copy') and e['args'] and False:
            return self.lval(e['args'][0])
        return LV(self.new_cell(self.eval(e)))

    def e_assign(self, e):
        r = self.eval(e['r'])
        lv = self.lval(e['l'])
        if self.st.dead:
            return r
        self.write(lv, r)
        return r

    def e_cassign(self, e):
        r = self.eval(e['r'])
        lv = self.lval(e['l'])
        if self.st.dead:
            return UNDEF
        cur = self.read(lv)
        isint = e.get('ct') in ('i', 'e', 'b')
        if isinstance(cur, Ptr) and cur.off is not None:
            d = self.term(r)
            nv = Ptr(cur.lv, add(cur.off, d if e['op'] == '+' else neg(d)))
        else:
            nv = self.arith(e['op'], self.term(cur), self.term(r), isint)
            if e['op'] in ('|', '&') and e['t'] == 'b':
                nv = b_or(as_bool(self.term(cur)), as_bool(self.term(r))) if e['op'] == '|' else b_and(as_bool(self.term(cur)), as_bool(self.term(r)))
        self.write(lv, nv)
        return nv

    def n_(self, x):
        """numeric view of booleans and enums"""
        def g(y):
            if y is TRUE:
                return ONE
            if y is FALSE:
                return ZERO
            if y.op == 'enumc':
                return num(y.args[1])
            return y
        if x.op == 'ite':
            return lift1(g, x) or x
        return g(x)

    def arith(self, op, a, b, isint=False):
        a, b = self.n_(a), self.n_(b)
        if a.sort == 's' or b.sort == 's':
            return mk('app', ('str' + op, a, b), 's')
        if op == '+':
            return add(a, b)
        if op == '-':
            return sub(a, b)
        if op == '*':
            return mul(a, b)
        if op == '/':
            return idiv(a, b) if isint else div(a, b)
        if op == '%':
            return imod(a, b)
        if a.op == 'num' and b.op == 'num' and val(a).denominator == 1 and val(b).denominator == 1:
            x, y = int(val(a)), int(val(b))
            if op == '<<':
                return num(x << y)
            if op == '>>':
                return num(x >> y)
            if op == '&':
                return num(x & y)
            if op == '|':
                return num(x | y)
            if op == '^':
                return num(x ^ y)
        return mk('app', (op, a, b), 'n')

    def e_bin(self, e):
        op = e['op']
        if op == ',':
            self.eval(e['l'])
            return self.eval(e['r'])
        if op in ('&&', '||'):
            l = self.truth(self.eval(e['l']))
            if self.st.dead:
                return l
            if op == '&&' and l is FALSE or op == '||' and l is TRUE:
                return l
            if op == '&&' and l is TRUE or op == '||' and l is FALSE:
                return self.truth(self.eval(e['r']))
            res = []
            c = l if op == '&&' else b_not(l)
            self.branch(c, lambda: res.append(self.truth(self.eval(e['r']))), None)
            r = res[0] if res else FALSE
            if r.op == 'throw':
                return l if op == '||' else FALSE
            return b_and(l, r) if op == '&&' else b_or(l, r)
        l = self.eval(e['l'])
        r = self.eval(e['r'])
        return self.binop(op, l, r, e)

    def binop(self, op, l, r, e):
        isint = e.get('lt') in ('i', 'e', 'b') and e.get('t') in ('i', 'e', 'b')
        if op in ('==', '!='):
            t = self.equal(l, r)
            return t if op == '==' else b_not(t)
        if op in ('<', '>', '<=', '>='):
            a, b = self.n_(self.term(l)), self.n_(self.term(r))
            isint = e.get('lt') in ('i', 'e', 'b', 'p')
            if a.sort == 's' or b.sort == 's':
                return as_bool(mk('app', ('strcmp' + op, a, b), 'b'))
            if op == '<':
                return b_lt(a, b, isint)
            if op == '>':
                return b_lt(b, a, isint)
            if op == '<=':
                return b_le(a, b, isint)
            return b_le(b, a, isint)
        if isinstance(l, Ptr) and l.off is not None and op in ('+', '-') and not isinstance(r, Ptr):
            d = self.term(r)
            return Ptr(l.lv, add(l.off, d if op == '+' else neg(d)))
        if isinstance(l, Ptr) and isinstance(r, Ptr) and l.off is not None and r.off is not None and op == '-':
            return sub(l.off, r.off)
        if isinstance(l, Ptr) and l.off is None and op == '+' and isinstance(self.read(l.lv), Arr):
            return Ptr(l.lv, self.term(r))
        if op in ('|', '&') and e.get('t') == 'b':
            a, b = as_bool(self.term(l)), as_bool(self.term(r))
            return b_or(a, b) if op == '|' else b_and(a, b)
        return self.arith(op, self.term(l), self.term(r), isint)

    def equal(self, l, r):
        if isinstance(l, VIte):
            return ite(l.c, self.equal(l.a, r), self.equal(l.b, r))
        if isinstance(r, VIte):
            return ite(r.c, self.equal(l, r.a), self.equal(l, r.b))
        if isinstance(l, Ptr) and isinstance(r, Ptr):
            if l.lv.alts == r.lv.alts and l.off is None and r.off is None:
                return TRUE
            if l.lv.alts == r.lv.alts and l.off is not None and r.off is not None:
                return b_eq(l.off, r.off)
            a, b = self.term(l), self.term(r)
            return as_bool(mk('app', ('sameobj',) + ((a, b) if a.id < b.id else (b, a)), 'b'))
        for x, y in ((l, r), (r, l)):
            if isinstance(x, Ptr) and isinstance(y, Term):
                if y is NULL:
                    return FALSE
        if isinstance(l, It) and isinstance(r, It):
            for x, y in ((l, r), (r, l)):
                if x.i is END_I:
                    if y.found is not None:
                        return b_not(y.found)
                    if y.i is END_I:
                        return TRUE
                    return b_eq(y.i, self.size_of(self.read(y.lv)))
            return b_eq(l.i, r.i)
        if isinstance(l, Arr) and isinstance(r, Arr) and l.concrete() and r.concrete() and l.size is r.size and l.kind == 'seq':
            t = TRUE
            for i in range(int(val(l.size))):
                t = b_and(t, self.equal(self.arr_get(l, num(i)), self.arr_get(r, num(i))))
            return t
        if isinstance(l, Obj) and isinstance(r, Obj) and l.base is None and r.base is None and set(l.f) == set(r.f):
            t = TRUE
            for k in l.f:
                t = b_and(t, self.equal(l.f[k], r.f[k]))
            return t
        return b_eq(self.term(l), self.term(r))

    def e_un(self, e):
        op = e['op']
        if op == '*':
            return self.read(self.deref(self.eval(e['e'])), (e['t'], e.get('T')))
        if op == '&':
            lv = self.lval(e['e'])
            # &v[0] is a pointer into the sequence
            if len(lv.alts) == 1 and lv.alts[0][2] and lv.alts[0][2][-1][0] == 'i':
                c, cell, p = lv.alts[0]
                return Ptr(LV(cell, p[:-1]), p[-1][1])
            return Ptr(lv)
        if op in ('++', '--', 'p++', 'p--'):
            lv = self.lval(e['e'])
            v = self.read(lv)
            d = ONE if '+' in op else num(-1)
            if isinstance(v, Ptr) and v.off is not None:
                nv = Ptr(v.lv, add(v.off, d))
            elif isinstance(v, It):
                nv = It(v.lv, add(v.i, d))
            else:
                nv = add(self.n_(self.term(v)), d)
            self.write(lv, nv)
            return v if op[0] == 'p' else nv
        v = self.eval(e['e'])
        if op == '-':
            return neg(self.n_(self.term(v)))
        if op == '+':
            return self.n_(self.term(v))
        if op == '!':
            return b_not(self.truth(v))
        return mk('app', (op, self.term(v)), 'n')

    def e_cond(self, e):
        c = self.cond(e['c'])
        if self.st.dead:
            return throw('dead')
        if c is TRUE:
            return self.eval(e['a'])
        if c is FALSE:
            return self.eval(e['b'])
        res = {}
        self.branch(c, lambda: res.__setitem__('a', self.eval(e['a'])), lambda: res.__setitem__('b', self.eval(e['b'])))
        a, b = res.get('a'), res.get('b')
        if a is None or (isinstance(a, Term) and a.op == 'throw'):
            return b
        if b is None or (isinstance(b, Term) and b.op == 'throw'):
            return a
        return self.vite(c, a, b)

    def e_throw(self, e):
        T = e.get('T', '?')
        if e.get('e') is not None:
            pass
        self.do_throw(T)
        return throw(T)

    def e_lambda(self, e):
        fr = self.frames[-1]
        env = {}
        own = {}
        for c in e['caps']:
            if c.get('this'):
                continue
            if 'init' in c:
                env[c['id']] = LV(self.new_cell(self.eval(c['init'])))
            elif c.get('id') in fr.env:
                if c['byref']:
                    env[c['id']] = fr.env[c['id']]
                else:
                    env[c['id']] = LV(self.new_cell(self.read(fr.env[c['id']])))
        return Clo(e, env, fr.this)

    def e_new(self, e):
        if e.get('arr'):
            n = self.term(self.eval(e['n'])) if e.get('n') else ZERO
            c = self.new_cell(Arr('seq', None, n, {}, UNDEF))
            if e.get('init'):
                i = self.eval(e['init'])
                if isinstance(i, Arr):
                    self.st.store[c] = Arr('seq', None, n, dict(i.e), i.fill if i.fill is not None else ZERO)
            return Ptr(LV(c), ZERO)
        if e.get('init') is not None:
            v = self.eval(e['init'])
        else:
            v = self.default_value(e['T'], None)
        return Ptr(LV(self.new_cell(v)))

    def e_delete(self, e):
        v = self.eval(e['e'])
        self.event('delete', self.term(v) if isinstance(v, Term) else None, [], e['ln'])
        return None

    def e_init(self, e):
        T = e['T'].replace('const ', '')
        if len(e['elts']) == 1 and bare(e['elts'][0].get('T')) == bare(T) and T and 'initializer_list' not in T:
            return self.eval(e['elts'][0])
        r = self.p.rec.get(T)
        if r is not None and not r['bases'] and any(fd['T'].endswith('&') for fd in r['fields']):
            # reference members alias their initialisers
            elts = []
            for x, fd in zip(e['elts'], r['fields']):
                y = x
                while y.get('k') == 'init' and len(y.get('elts', ())) == 1:
                    y = y['elts'][0]
                if fd['T'].endswith('&') and y.get('k') in ('ref', 'member', 'un', 'mcall', 'call', 'opcall', 'sub', 'cond'):
                    elts.append(Ptr(self.lval(y)))
                else:
                    elts.append(self.eval(x))
        else:
            elts = [self.eval(x) for x in e['elts']]
        if r is not None:
            f = {}
            i = 0
            for b in r['bases']:
                if i < len(elts):
                    x = elts[i]
                    if isinstance(x, Obj):
                        f.update(x.f)
                    i += 1
            for fd in r['fields']:
                if i < len(elts):
                    f[fd['name']] = elts[i]
                    i += 1
                elif 'init' in fd:
                    f[fd['name']] = self.eval(fd['init'])
                else:
                    f[fd['name']] = self.default_value(fd['T'], fd['t'])
            return Obj(T, None, f)
        if e.get('c') in ('d', 'i', 'b', 'p', 'e'):
            if elts:
                return elts[0]
            return {'d': ZERO, 'i': ZERO, 'b': FALSE, 'p': NULL, 'e': ZERO}[e['c']]
        if T.startswith('std::array<') and len(elts) == 1 and isinstance(elts[0], Arr):
            return elts[0]
        if e.get('c') in ('c', 'o') and len(elts) == 1 and not T.startswith(('std::array<', 'std::initializer_list<')) and not T.endswith(']'):
            return elts[0]
        n = e.get('n', len(elts))
        fill = self.eval(e['fill']) if e.get('fill') is not None else None
        return Arr('seq', None, num(n), {num(i): x for i, x in enumerate(elts)}, fill)

    # ---------------------------------------------------------- construct
    def e_construct(self, e):
        T = e['T'].replace('const ', '')
        f = self.p.fn.get(e['usr'])
        if e.get('copy') and len(e['args']) >= 1 and not (f is not None and f.get('body') is not None and e['copy'] == 1 and not f.get('defaulted')):
            v = self.eval(e['args'][0])
            return v
        if T in self.opaque:
            return self.models['construct'](self, e, T)
        if f is not None and f.get('body') is not None and not f.get('defaulted'):
            c = self.new_cell(Obj(T, None, {}))
            args = self.args_for(f['params'], e['args'])
            if self.st.dead:
                return throw('dead')
            self.call_function(f, args, LV(c))
            return self.st.store.get(c, UNDEF) if not self.st.dead else throw('dead')
        r = self.p.rec.get(T)
        if r is not None and not e['args']:
            return self.default_value(T, None)
        if r is not None and f is not None and f.get('inits') is not None:
            c = self.new_cell(Obj(T, None, {}))
            self.default_fields(LV(c), r)
            return self.st.store[c]
        if '_iterator' in T and 'directory_' not in T and len(e['args']) == 1:
            v = self.eval(e['args'][0])
            if isinstance(v, (It, Ptr)):
                return v
            return mk('app', ('new:' + strip_t(T), self.term(v)))
        m = self.models.get('construct')
        return m(self, e, T)

    def args_for(self, params, args):
        out = []
        for p, a in zip(params, args):
            if p['ref']:
                out.append(self.lval(a))
            else:
                v = self.eval(a)
                if p.get('t') == 'p' and isinstance(v, Arr) and a.get('k') == 'ref' and a.get('t') == 'a' and self.var_lv(a) is not None:
                    v = Ptr(self.var_lv(a), ZERO)        # a native array is passed by the address of its first element
                out.append(v)
        return out

    # --------------------------------------------------------------- calls
    def e_call(self, e):
        r = self.call(e)
        return self.read(r) if isinstance(r, LV) else r
    e_mcall = e_call
    e_opcall = e_call

    def invoke(self, f, args, e=None):
        """call a callable value with values/LVs"""
        if isinstance(f, VIte):
            res = {}
            self.branch(f.c, lambda: res.__setitem__('a', self.invoke(f.a, args, e)), lambda: res.__setitem__('b', self.invoke(f.b, args, e)))
            return self.vite(f.c, res.get('a'), res.get('b'))
        if isinstance(f, Ptr):
            return self.invoke(self.read(f.lv), args, e)
        if isinstance(f, Clo):
            n = f.node
            d = n
            if 'alts' in n:
                if not n['alts']:
                    return mk('app', ('lambda?',))
                d = n['alts'][0]
                if e is not None:
                    for a in n['alts']:
                        if a['usr'] == e.get('usr'):
                            d = a
            fn = {'q': (self.frames[-1].fn['q'] if self.frames[-1].fn else '') + '::lambda', 'usr': 'lambda@%s' % n.get('ln'), 'params': d['params'], 'body': d['body'], 'ret': '', 'rt': 'o', 'file': ''}
            return self.call_lambda(fn, args, f)
        if isinstance(f, FnRef):
            fn = self.p.fn.get(f.usr)
            if fn is not None and fn.get('body') is not None:
                return self.call_function(fn, args)
            return self.external_free(f.q, [self.read(a) if isinstance(a, LV) else a for a in args], None, e)
        if isinstance(f, Obj) and f.cls == 'std::bind':
            out = []
            for k in range(int(val(f.f['#n']))):
                a = f.f['#a%d' % k]
                h = re.search(r'placeholders::_(\d+)$', str(a.args[0])) if isinstance(a, Term) and a.op == 'sym' else None
                out.append(args[int(h.group(1)) - 1] if h else LV(self.new_cell(a)))
            return self.invoke(f.f['#f'], out, e)
        vals = [self.term(self.read(a) if isinstance(a, LV) else a) for a in args]
        return mk('app', ('apply', self.term(f)) + tuple(vals), sort_of((e or {}).get('t'), (e or {}).get('T')))

    def call_lambda(self, fn, args, clo):
        env0 = clo.env
        self_ = self
        # bind captured variables by making them visible in the frame env
        orig = self.call_function

        def patched():
            env = {}
            fr = Frame(fn, env, clo.this)
            env.update(env0)
            for p, a in zip(fn['params'], args):
                if isinstance(a, LV) and p['ref']:
                    env[p['id']] = a
                else:
                    if isinstance(a, LV):
                        x = self.read(a)
                        a = Ptr(a, ZERO) if p.get('t') == 'p' and isinstance(x, Arr) else x
                    env[p['id']] = LV(self.new_cell(a))
            return fr
        if len(self.frames) > self.inline_depth or self.unbounded(fn['usr']):
            return mk('app', ('rec:lambda',))
        fr = patched()
        self.frames.append(fr)
        pc0 = self.st.pc
        self.pcstack.append(pc0)
        self.st = State(dict(self.st.store), TRUE)
        try:
            self.stmt(fn['body'])
        finally:
            self.frames.pop()
            self.pcstack.pop()
        rets = list(fr.rets)
        if not self.st.dead:
            rets.append((self.st.pc, None, self.st))
        ret, st = None, None
        for pc, v, s in reversed(rets):
            if st is None:
                st, ret = State(s.store, pc), v
            else:
                ret = self.vite(pc, v, ret)
                st = self.merge_into(pc, State(s.store, pc), st)
        for pc, T, s in fr.throws:
            self.frames[-1].throws.append((b_and(pc0, pc), T, s))
        if st is None:
            self.st = State(self.st.store, FALSE, True)
            return throw('lambda')
        self.st = State(st.store, b_and(pc0, st.pc) if fr.throws else pc0)
        return ret

    def call(self, e, want_lv=False):
        k = e['k']
        q = e.get('q')
        usr = e.get('usr')
        if k == 'call':
            if q is None:
                f = self.eval(e['fn'])
                return self.invoke(f, [self.lval_or_val(a) for a in e['args']], e)
            fn = self.p.fn.get(usr)
            m = self.models.get(q)
            if m is not None:
                return m(self, e, want_lv)
            if fn is not None and fn.get('body') is not None and q not in self.opaque:
                args = self.args_for(fn['params'], e['args'])
                if self.st.dead:
                    return throw('dead')
                return self.call_function(fn, args, None, want_lv)
            return self.external_call(e, None, want_lv)
        if k == 'mcall':
            objlv = None
            if e.get('obj') is not None:
                if e.get('arrow'):
                    pv = self.eval(e['obj'])
                    if self.st.dead:
                        return throw('dead')
                    objlv = self.deref(pv)
                else:
                    objlv = self.lval(e['obj'])
            if self.st.dead:
                return throw('dead')
            return self.method(e, objlv, want_lv)
        # operator call
        op = e['op']
        if e.get('meth'):
            a0 = e['args'][0]
            fn = self.p.fn.get(usr)
            if op == '()' or op == '[]' or op in ('=', '+=', '-=', '*=', '/=', '++', '--', '->', '*', '<<', '>>'):
                objlv = self.lval(a0)
            else:
                objlv = self.lval(a0)
            if self.st.dead:
                return throw('dead')
            if fn is not None and fn.get('body') is not None and q not in self.opaque:
                o = self.read(objlv)
                args = self.args_for(fn['params'], e['args'][1:])
                return self.call_function(fn, args, objlv, want_lv)
            return self.op_method(e, op, objlv, e['args'][1:], want_lv)
        fn = self.p.fn.get(usr)
        if fn is not None and fn.get('body') is not None and q not in self.opaque:
            args = self.args_for(fn['params'], e['args'])
            return self.call_function(fn, args, None, want_lv)
        return self.op_free(e, op, want_lv)

    def lval_or_val(self, a):
        if a['k'] in ('ref', 'member', 'sub', 'un', 'opcall', 'mcall', 'call'):
            return self.lval(a)
        return self.eval(a)

    def method(self, e, objlv, want_lv):
        q, name, usr = e.get('q', '?'), e.get('name', '?'), e.get('usr')
        if objlv is None:
            return self.external_call(e, None, want_lv)
        o = self.read(objlv)
        if isinstance(o, VIte) and not want_lv:
            # dispatch on both alternatives
            res = {}
            lva, lvb = LV(self.new_cell(o.a)), LV(self.new_cell(o.b))
            if isinstance(o.a, Ptr) or isinstance(o.b, Ptr) or isinstance(o.a, Obj) or isinstance(o.b, Obj):
                self.branch(o.c, lambda: res.__setitem__('a', self._val(self.method(e, lva, False))), lambda: res.__setitem__('b', self._val(self.method(e, lvb, False))))
                return self.vite(o.c, res.get('a', UNDEF), res.get('b', UNDEF))
        if 'basic_json' in e.get('OT', ''):
            r = json_method(self, e, objlv, want_lv)
            if r is not NotImplemented:
                return r
        m = self.models.get(q) or self.models.get('::' + name)
        fn = self.p.fn.get(usr)
        if q in self.models and m is not None:
            r = m(self, e, objlv, want_lv)
            if r is not NotImplemented:
                return r
        target = fn
        if e.get('virt') and isinstance(o, Obj) and o.cls:
            t = self.p.resolve_virtual(usr, o.cls)
            if o.base is None:
                target = t
            elif t is not None and not self.p.derived(o.cls):
                target = t
            elif self.p.over.get(usr):
                target = None
        elif e.get('virt') and self.p.over.get(usr):
            target = None
        if target is not None and target.get('body') is not None and q not in self.opaque and target['q'] not in self.opaque:
            if isinstance(o, Term) and o.op not in ('throw', 'undef') and target.get('cls') in self.p.rec and len(objlv.alts) == 1:
                pass
            args = self.args_for(target['params'], e['args'])
            if self.st.dead:
                return throw('dead')
            return self.call_function(target, args, objlv, want_lv)
        mm = METHODS.get(name)
        if mm is not None:
            r = mm(self, e, objlv, want_lv)
            if r is not NotImplemented:
                return r
        return self.external_call(e, objlv, want_lv)

    def _val(self, r):
        return self.read(r) if isinstance(r, LV) else r

    def external_call(self, e, objlv, want_lv):
        """library function without a model: uninterpreted result, uninterpreted
        new values for what it can modify"""
        q = e.get('q', '?')
        name = e.get('name') or q
        pm = e.get('pm', '')
        args = []
        outs = []
        for i, a in enumerate(e['args']):
            mode = pm[i] if i < len(pm) else 'v'
            if mode == 'r':
                lv = self.lval(a)
                args.append(self.read(lv))
                outs.append((i, lv))
            elif mode == 'p':
                v = self.eval(a)
                args.append(v)
                if isinstance(v, Ptr):
                    outs.append((i, v.lv if v.off is None else v.lv))
            else:
                v = self.eval(a)
                args.append(v)
                # algorithms may write through iterators
                if isinstance(v, (It, Ptr)) and q.startswith('std::') and name not in READONLY_ALG:
                    if isinstance(v, It) or 'const' not in (a.get('T') or ''):
                        outs.append((i, v.lv))
        if self.st.dead:
            return throw('dead')
        if e.get('noret'):
            self.do_throw('noreturn:' + q)
            return throw('noreturn')
        ts = tuple(self.term(a) for a in args)
        srt = sort_of(e.get('t'), e.get('T'))
        short = name if objlv is not None else q
        if objlv is not None:
            o = self.read(objlv)
            ot = self.term(o)
            pure = e.get('const') or name.startswith(PURE_PREFIX)
            allargs = (ot,) + ts
        else:
            ot = None
            pure = not outs
            allargs = ts
        if not pure or outs:
            self.event(short, ot, list(ts), e['ln'])
        for i, lv in outs:
            # pure accessors that fill an argument do not depend on its old content
            ia = tuple(t for j, t in enumerate(allargs) if not (j - (1 if objlv is not None else 0) == i and name.startswith('Get')))
            old = self.read(lv)
            so = old.sort if isinstance(old, Term) else ('v' if isinstance(old, Arr) else None)
            self.write(lv, mk('app', ('out%d:%s' % (i, short),) + ia, so))
        if objlv is not None and not pure:
            so = ot.sort
            self.write(objlv, self.rewrap(o, mk('app', ('mut:' + short,) + allargs, so)))
        r = mk('app', ('m:' + short if objlv is not None else 'f:' + short,) + allargs, srt)
        if isinstance(o if objlv is not None else None, VIte):
            pass
        if any(isinstance(a, Term) and a.op == 'ite' for a in allargs):
            r = liftn(lambda *xs: mk('app', ('m:' + short if objlv is not None else 'f:' + short,) + xs, srt), allargs) or r
        w = self.wrap(r, e.get('T'))
        return w

    def rewrap(self, o, t):
        if isinstance(o, Obj):
            return Obj(o.cls, t, {})
        return t

    def external_free(self, q, args, objlv, e):
        return mk('app', ('f:' + q,) + tuple(self.term(a) for a in args), sort_of((e or {}).get('t'), (e or {}).get('T')))

    # operators of library classes -------------------------------------------------
    def op_method(self, e, op, objlv, args, want_lv):
        q = e.get('q', '')
        T0 = e.get('T0', '').replace('const ', '')
        if op == '[]':
            i = self.eval(args[0])
            o = self.read(objlv)
            if isinstance(o, Ptr):
                if o.off is not None:
                    return o.lv.ext(('i', add(o.off, self.term(i))))
                # unique_ptr<T[]>
                return o.lv.ext(('i', self.term(i)))
            if isinstance(o, Arr) and o.kind == 'map' and o.base is None:
                it = self.term(i)
                if isinstance(i, Ptr) and ptr_key(T0):
                    i = it = self.mkey(i)
                if it not in o.e and all(b_eq(k, it) is FALSE for k in o.e):
                    if 'basic_json' in T0 and e.get('T0', '').startswith('const '):
                        # reading a missing key of a constant document is undefined
                        self.do_throw('undefined: missing JSON key %s' % show(it))
                        return throw('dead')
                    # default-constructed element
                    dv = self.map_default(T0, e)
                    self.write(objlv.ext(('i', it)), dv)
            lv = objlv.ext(('i', self.term(i)))
            if want_lv:
                return lv
            return self.read(lv, (e.get('t'), e.get('T')))
        if op == '()':
            o = self.read(objlv)
            if isinstance(o, (Clo, FnRef)) or isinstance(o, VIte) and isinstance(o.a, (Clo, FnRef)):
                return self.invoke(o, [self.lval_or_val(a) for a in args], e)
            if T0.startswith('std::function') or 'lambda' in T0:
                return self.invoke(o, [self.lval_or_val(a) for a in args], e)
            idx = [self.term(self.eval(a)) for a in args]
            if len(idx) == 1:
                lv = objlv.ext(('i', idx[0]))
            else:
                lv = objlv.ext(('i', mk('app', ('ij',) + tuple(idx))))
            if want_lv:
                return lv
            return self.read(lv, (e.get('t'), e.get('T')))
        if op == '=':
            v = self.eval(args[0])
            if self.st.dead:
                return throw('dead')
            o = self.read(objlv)
            if is_vec_type(T0) and isinstance(v, Term) and v.sort in ('n',) and v.op != 'undef':
                # fill
                if isinstance(o, Arr) and o.base is None:
                    self.write(objlv, Arr('seq', None, o.size, {}, v))
                else:
                    sz = self.size_of(o)
                    self.write(objlv, Arr('seq', None, sz, {}, v))
                return objlv
            self.write(objlv, v)
            return objlv
        if op in ('+=', '-=', '*=', '/='):
            v = self.eval(args[0])
            o = self.read(objlv)
            if sort_of('c', T0) == 's' or (isinstance(o, Term) and o.sort == 's'):
                self.write(objlv, str_concat(self.term(o), self.n_(self.term(v)) if isinstance(v, Term) else self.term(v)))
                return objlv
            self.write(objlv, self.vec_arith(op[0], o, v))
            return objlv
        if op == '->':
            return self.read(objlv)
        if op == '*':
            if not args:
                return self.deref(self.read(objlv))
            o = self.read(objlv)
            v = self.eval(args[0])
            return self.vec_arith('*', o, v)
        if op in ('+', '-', '/'):
            o = self.read(objlv)
            if not args:
                return neg(self.term(o)) if op == '-' else o
            v = self.eval(args[0])
            if isinstance(o, It):
                d = self.term(v)
                return It(o.lv, add(o.i, d if op == '+' else neg(d)))
            return self.vec_arith(op, o, v)
        if op in ('++', '--'):
            o = self.read(objlv)
            if isinstance(o, It):
                d = ONE if op == '++' else num(-1)
                self.write(objlv, It(o.lv, add(o.i, d)))
                return o if args else objlv
            self.write(objlv, mk('app', ('mut:' + op, self.term(o))))
            return objlv
        if op in ('==', '!='):
            t = self.equal(self.read(objlv), self.eval(args[0]))
            return t if op == '==' else b_not(t)
        if op in ('<<', '>>'):
            return self.stream_op(e, op, objlv, args[0])
        ts = [self.term(self.eval(a)) for a in args]
        if op == '!':
            return b_not(self.truth(self.read(objlv)))
        return mk('app', ('op' + op, self.term(self.read(objlv))) + tuple(ts), sort_of(e.get('t'), e.get('T')))

    def map_default(self, T0, e):
        # mapped type from the type of the expression
        T = e.get('T', '')
        c = e.get('t')
        if c == 'i' or c == 'd':
            return ZERO
        if c == 'b':
            return FALSE
        return self.default_value(T, c)

    def mkey(self, v):
        """key of a container ordered by address"""
        if isinstance(v, Ptr) and len(v.lv.alts) == 1:
            _, c, path = v.lv.alts[0]
            if v.off is not None:
                path = path + (('i', v.off),)
            t = string('@%s%s' % (c, ''.join('/%s' % (show(x[1]) if isinstance(x[1], Term) else x[1]) for x in path)))
            self.locs[t] = v
            return t
        return self.term(v)

    def stream_op(self, e, op, objlv, arg):
        if op == '<<':
            v = self.eval(arg)
            if isinstance(v, FnRef):
                t = mk('app', ('fn', v.q))
            else:
                t = self.term(v)
            m = self.models.get('<<')
            if m is not None and m(self, objlv, t) is not NotImplemented:
                return objlv
            self.event('<<', self.term(self.read(objlv)), [t], e['ln'])
            o = self.read(objlv)
            self.write(objlv, mk('app', ('<<', self.term(o), t)))
            return objlv
        alv = self.lval(arg)
        o = self.term(self.read(objlv))
        self.write(alv, mk('app', ('read', o), self.term(self.read(alv)).sort))
        self.write(objlv, mk('app', ('>>', o)))
        return objlv

    def eigen(self, op, a, b):
        """products and sums of diagonal and dense matrices of constant size"""
        da, db, ma, mb = diagonal(a), diagonal(b), mat_dims(a), mat_dims(b)
        va, vb = [isinstance(x, Arr) and x.kind == 'seq' and x.concrete() and int(val(x.size)) <= MAX_UNROLL for x in (a, b)]
        if da is None and db is None and ma is None and mb is None:
            return None
        sa, sb = [isinstance(x, Term) and x.sort in ('n', 'z', None) for x in (a, b)]

        def at(x, i, j=None):
            return self.term(self.getc(x, ('i', num(i) if j is None else mk('app', ('ij', num(i), num(j))))))

        def mat(r, c, g):
            return Arr('seq', None, mk('app', ('dim', num(r), num(c)), 'n'), {mk('app', ('ij', num(i), num(j))): g(i, j) for i in range(r) for j in range(c)}, UNDEF)

        def total(xs):
            t = ZERO
            for x in xs:
                t = add(t, x)
            return t
        if op in '*/' and sb and op == '/' or op == '*' and (sa or sb):
            x, c = (b, a) if sa else (a, b)
            if diagonal(x) is not None:
                r = self.vec_arith(op, diagonal(x), c)
                return Obj('#diagonal', None, {'v': r})
            d = mat_dims(x)
            return mat(d[0], d[1], lambda i, j: self.arith(op, at(x, i, j), c))
        if op == '*' and da is not None:
            n = int(val(da.size)) if da.concrete() else None
            if vb and n == int(val(b.size)):
                return vec_([mul(at(da, i), at(b, i)) for i in range(n)])
            if mb is not None and n == mb[0]:
                return mat(n, mb[1], lambda i, j: mul(at(da, i), at(b, i, j)))
            if db is not None and db.concrete() and n == int(val(db.size)):
                return Obj('#diagonal', None, {'v': vec_([mul(at(da, i), at(db, i)) for i in range(n)])})
        if op == '*' and ma is not None:
            if vb and ma[1] == int(val(b.size)):
                return vec_([total(mul(at(a, i, j), at(b, j)) for j in range(ma[1])) for i in range(ma[0])])
            if mb is not None and ma[1] == mb[0]:
                return mat(ma[0], mb[1], lambda i, j: total(mul(at(a, i, k), at(b, k, j)) for k in range(ma[1])))
            if db is not None and db.concrete() and ma[1] == int(val(db.size)):
                return mat(ma[0], ma[1], lambda i, j: mul(at(a, i, j), at(db, j)))
        if op in '+-' and ma is not None and ma == mb:
            return mat(ma[0], ma[1], lambda i, j: self.arith(op, at(a, i, j), at(b, i, j)))
        return None

    def vec_arith(self, op, a, b):
        if isinstance(a, View):
            a = self.view_arr(a)
        if isinstance(b, View):
            b = self.view_arr(b)
        r = self.eigen(op, a, b)
        if r is not None:
            return r
        ta, tb = a, b
        ca = isinstance(a, Arr) and a.concrete()
        cb = isinstance(b, Arr) and b.concrete()
        if ca and (cb or not isinstance(b, Arr)) and op in '+-*/':
            n = int(val(a.size))
            if n <= MAX_UNROLL:
                if cb and a.size is b.size and op in '+-':
                    return Arr('seq', None, a.size, {num(i): self.arith(op, self.term(self.arr_get(a, num(i))), self.term(self.arr_get(b, num(i)))) for i in range(n)})
                if cb and op == '*':
                    r = ZERO
                    for i in range(n):
                        r = add(r, mul(self.term(self.arr_get(a, num(i))), self.term(self.arr_get(b, num(i)))))
                    return r
                tb = self.term(b)
                if tb.sort in ('n', None, 'z') and tb.op != 'throw':
                    return Arr('seq', None, a.size, {num(i): self.arith(op, self.term(self.arr_get(a, num(i))), tb) for i in range(n)})
                if tb.sort == 'v' and op in '+-':
                    return Arr('seq', None, a.size, {num(i): self.arith(op, self.term(self.arr_get(a, num(i))), self._idx(tb, num(i))) for i in range(n)})
        if cb and isinstance(a, Term) and a.sort in ('n', 'z') and op == '*':
            return self.vec_arith('*', b, a)
        ta, tb = self.n_(self.term(a)), self.n_(self.term(b))
        if isinstance(a, Arr) and a.base is None and a.fill is not None and not a.e and self.term(a.fill) is ZERO and op in '+-':
            return tb if op == '+' else neg(tb)
        if ta.sort == 'v' and tb.sort == 'v' and op == '*':
            return mk('app', ('mm', ta, tb), 'v')
        return self.arith(op, ta, tb)

    def op_free(self, e, op, want_lv):
        a = e['args']
        if op in ('<<', '>>') and len(a) == 2:
            return self.stream_op(e, op, self.lval(a[0]), a[1])
        vals = [self.eval(x) for x in a]
        if self.st.dead:
            return throw('dead')
        if op in ('==', '!=') and len(vals) == 2:
            t = self.equal(*vals)
            return t if op == '==' else b_not(t)
        T = e.get('T', '')
        if op == '+' and len(vals) == 2 and sort_of(e.get('t'), T) == 's':
            return str_concat(self.term(vals[0]), self.term(vals[1]))
        if op == '-' and len(vals) == 2 and isinstance(vals[0], It) and isinstance(vals[1], It):
            return sub(vals[0].i, vals[1].i)
        if len(vals) == 2 and op in ('+', '-', '*', '/'):
            return self.vec_arith(op, vals[0], vals[1])
        if len(vals) == 1 and op == '-':
            return neg(self.term(vals[0]))
        if len(vals) == 2 and op in ('<', '>', '<=', '>='):
            x, y = self.term(vals[0]), self.term(vals[1])
            return as_bool(mk('app', ('cmp' + op, x, y), 'b'))
        return mk('app', ('op' + op,) + tuple(self.term(v) for v in vals), sort_of(e.get('t'), T))


READONLY_ALG = {'accumulate', 'find', 'find_if', 'find_if_not', 'count', 'count_if', 'all_of', 'any_of', 'none_of', 'max_element',
                'min_element', 'minmax_element', 'lower_bound', 'upper_bound', 'equal_range', 'binary_search', 'equal', 'distance', 'next', 'prev',
                'inner_product', 'is_sorted', 'includes', 'search', 'mismatch', 'lexicographical_compare', 'make_pair', 'make_tuple', 'tie',
                'make_unique', 'make_shared', 'make_optional', 'to_string', 'reduce', 'adjacent_find', 'advance', 'addressof', 'ref', 'cref', 'move', 'forward', 'get_if', 'holds_alternative'}
END_I = mk('app', ('end',))


def contains_cond(d, bv):
    """does any decision atom of d depend on bv"""
    st, seen = [d], set()
    while st:
        x = st.pop()
        if x.op == 'ite' and x.id not in seen:
            seen.add(x.id)
            if contains(x.args[0], lambda y: y is bv):
                return True
            st += [x.args[1], x.args[2]]
    return False


def vec_(xs):
    return Arr('seq', None, num(len(xs)), {num(i): x for i, x in enumerate(xs)}, None)


def mat_dims(a):
    """rows and columns of a dense matrix of constant size"""
    if isinstance(a, Arr) and a.kind == 'seq' and a.base is None and isinstance(a.size, Term) and a.size.op == 'app' and a.size.args[0] == 'dim' and len(a.size.args) == 3 \
            and is_num(a.size.args[1]) and is_num(a.size.args[2]):
        return int(val(a.size.args[1])), int(val(a.size.args[2]))
    return None


def diagonal(a):
    return a.f['v'] if isinstance(a, Obj) and a.cls == '#diagonal' and isinstance(a.f['v'], Arr) else None


def strip_t(T):
    return T.split('<')[0].strip()


def ptr_key(T):
    """is the container ordered by address?"""
    T = T.replace('const ', '')
    d = 0
    for i, c in enumerate(T):
        d += {'<': 1, '>': -1}.get(c, 0)
        if c == ',' and d == 1 or c == '>' and d == 0:
            return T[:i].rstrip().endswith('*')
    return False


def str_concat(a, b):
    def parts(x):
        if x.op == 'app' and x.args[0] == 'concat':
            return list(x.args[1:])
        return [x]

    def f(a, b):
        ps = []
        for x in parts(a) + parts(b):
            if x.op == 'num' and x.args[0].denominator == 1 and 0 < x.args[0] < 128:
                x = string(chr(int(x.args[0])))
            if x.op == 'str' and x.args[0] == '':
                continue
            if ps and ps[-1].op == 'str' and x.op == 'str':
                ps[-1] = string(ps[-1].args[0] + x.args[0])
            else:
                ps.append(x)
        if not ps:
            return string('')
        if len(ps) == 1:
            return ps[0]
        return mk('app', ('concat',) + tuple(ps), 's')
    r = lift2(f, a, b)
    return r if r is not None else f(a, b)


from models import MODELS, METHODS, json_method  # noqa: E402
