"""Interprocedural value-flow analysis over THIR.

Every function body is interpreted once per calling context over the gated value domain of
term.py/values.py.  Branches are joined (never enumerated as paths); loops are summarised by a
havoc fixpoint plus recurrence classification; unknown callees become uninterpreted functions of
their arguments."""
from .values import *
from . import term as T


class Unsupported(Exception):
    pass


class State:
    __slots__ = ("store", "guard", "dead")

    def __init__(self, store=None, guard=TRUE, dead=False):
        self.store = store if store is not None else {}
        self.guard = guard
        self.dead = dead

    def fork(self, c):
        g = band(self.guard, c)
        return State(dict(self.store), g, self.dead or g is FALSE)

    def kill(self):
        s = State({}, FALSE, True)
        return s


class Frame:
    __slots__ = ("fn", "vars", "subst", "returns", "env", "entry", "labels", "parent")

    def __init__(self, fn, subst, env=None):
        self.fn = fn
        self.vars = {}
        self.subst = subst
        self.returns = []
        self.env = env
        self.labels = []


class Place:
    __slots__ = ("cell", "path")

    def __init__(self, cell, path=()):
        self.cell = cell
        self.path = path

    def ext(self, *p):
        return Place(self.cell, self.path + tuple(p))


class Iter(Val):
    """an iterator value: stream description + position"""
    __slots__ = ("st", "pos")

    def __init__(self, st, pos=ZERO):
        self.st = st
        self.pos = pos

    def __repr__(self):
        return "iter(%r@%r)" % (self.st, self.pos)

    def skey(self):
        return ("iter", id(self.st), self.pos.id)

    def parts_(self):
        return [self.pos]

    def subst_(self, sub):
        return Iter(self.st, sub.v(self.pos))

    def merge_(self, c, o):
        if self.st is o.st:
            return Iter(self.st, ite(c, self.pos, o.pos))
        return None


RESULT = "std::result::Result"
OPTION = "std::option::Option"


class Interp:
    def __init__(self, prog, boundary=None, max_depth=60, lenient=False):
        self.p = prog
        self.st = State()
        self.frames = []
        self.ncell = 0
        self.events = []
        self.texts = {}
        self.boundary = boundary or {}
        self.uid = 0
        self.depth = 0
        self.max_depth = max_depth
        self.loopinfo = {}
        self.its = {}  # loop -> its index
        self.loopstack = []
        self.cell_ty = {}  # cell of a local -> its type
        self.shared = set()  # cells standing for the target of a shared reference carried from iteration to iteration
        self.analysed = set()
        self.opaque_calls = {}
        self.override = {}
        self.unsupported = []
        self.fn_sites = {}
        self.mixed = []
        from . import models
        self.models = models
        self._adtpath = {}
        R = prog.ids(RESULT)
        O = prog.ids(OPTION)
        self.RES = R[0] if R else None
        self.OPT = O[0] if O else None
        CF = prog.ids("std::ops::ControlFlow")
        self.CF = CF[0] if CF else None

    # ------------------------------------------------------------ basic helpers
    def apath(self, adt):
        r = self._adtpath.get(adt)
        if r is None:
            d = self.p.defs.get(adt)
            r = d["path"] if d else str(adt)
            self._adtpath[adt] = r
        return r

    def new_cell(self, v):
        self.ncell += 1
        self.st.store[self.ncell] = v
        return self.ncell

    def ref(self, v):
        return mk_leaf(Ref(self.new_cell(v)))

    def event(self, kind, **kw):
        if self.st.dead:
            return
        fr = self.frames[-1] if self.frames else None
        e = dict(kind=kind, guard=self.st.guard, fn=fr.fn if fr else None,
                 loops=tuple(self.loopstack), **kw)
        self.events.append(e)
        return e

    def site(self, e):
        return e.get("sp", "?")

    def die(self):
        self.st = self.st.kill()
        return UNIT

    # option/result constructors
    def Some(self, v):
        return mk_leaf(Enum(self.OPT, "Some", {"0": v}))

    def None_(self):
        return mk_leaf(Enum(self.OPT, "None", {}))

    def Ok(self, v):
        return mk_leaf(Enum(self.RES, "Ok", {"0": v}))

    def Err(self, v):
        return mk_leaf(Enum(self.RES, "Err", {"0": v}))

    # ------------------------------------------------------------ symbolic values of a type
    def is_int_ty(self, t):
        return t[0] == "int"

    def sym_value(self, base, t, depth=0):
        """the value of type t identified by atom `base` (projections are atoms over base)"""
        k = t[0]
        if k == "float":
            return num_atom(base)
        if k == "int" or k == "char":
            if not base.integer:
                base = mk_atom(base.kind, base.args, True, ("I",) + base.key[1], base.meta)
            if k == "char" or t[1].startswith("u"):
                T.NONNEG.add(base.id)
            return num_atom(base)
        if k == "bool":
            return bool_atom("bool", (base,), (base.id,))
        if k == "tuple":
            return Tup([self.proj(base, str(i), x) for i, x in enumerate(t[1])])
        if k == "ref":
            return self.ref(self.sym_value(base, t[1], depth))
        if k == "array":
            try:
                n = int(t[2])
            except ValueError:
                n = None
            if n is not None and n <= 32:
                return Lst([self.idx(base, num(i), t[1]) for i in range(n)])
            return OSeq(base, lambda a, i, t=t: self.idx(a, i, t[1]), None, t[1])
        if k == "slice":
            return OSeq(base, lambda a, i, t=t: self.idx(a, i, t[1]), None, t[1])
        if k == "adt":
            path = self.apath(t[1])
            if path in ("std::vec::Vec", "std::collections::VecDeque"):
                return OSeq(base, lambda a, i, t=t: self.idx(a, i, t[2][0]), None, t[2][0])
            if path == "std::boxed::Box":
                return self.sym_value(base, t[2][0], depth)
            if path in ("std::rc::Rc", "std::sync::Arc"):
                return self.sym_value(base, t[2][0], depth)
            if path == "std::cell::RefCell" or path == "std::cell::Cell":
                return Struct(t[1], {"value": self.proj(base, "value", t[2][0])})
            if path == "nalgebra::Matrix":
                m = self.matrix_shape(t)
                if m:
                    r, c = m
                    if r == "dyn":
                        return OSeq(base, lambda a, i, t=t: self.idx(a, i, t[2][0]), None, t[2][0])
                    return Mat(r, c, {
                        (i, j): self.idx(base, num(i + j * r), t[2][0])
                        for i in range(r) for j in range(c)}, ZERO)
            d = self.p.defs.get(t[1])
            row = self.p.adts.get(t[1])
            if row and depth < 8:
                if row["kind"] == "struct" and d and d["local"]:
                    s = self.adt_subst(t)
                    return Struct(t[1], {
                        f["name"]: self.proj(base, f["name"], self.p.subst(self.p.ty(f["ty"]), s), depth + 1)
                        for f in row["variants"][0]["fields"]})
                if path in (OPTION, RESULT) or (row["kind"] == "enum" and d and d["local"]):
                    return self.sym_enum(base, t, path, row, d, depth)
        if k == "never":
            return UNIT
        return mk_leaf(Opq(base, t))

    def sym_enum(self, base, t, path, row, d, depth):
        vs = [v["name"] for v in row["variants"]]
        if not vs:
            return mk_leaf(Opq(base, t))
        if path == OPTION:
            vs = ["Some", "None"]
        vals = []
        s = self.adt_subst(t)
        for v in vs:
            if path == OPTION:
                f = {"0": self.proj(base, "Some", t[2][0], depth + 1)} if v == "Some" else {}
            elif path == RESULT:
                f = {"0": self.proj(base, v, t[2][0 if v == "Ok" else 1], depth + 1)}
            else:
                vr = self.p.adt_variant(t[1], v)
                f = {x["name"]: self.proj(base, v + "." + x["name"],
                                          self.p.subst(self.p.ty(x["ty"]), s), depth + 1)
                     for x in vr["fields"]}
            vals.append(mk_leaf(Enum(t[1], v, f)))
        if len(vals) == 1:
            return vals[0]
        g = cond_group(tuple("is:" + v for v in vs[:-1]), (base,), (key(base),))
        r = vals[-1]
        for c, v in reversed(list(zip(g, vals[:-1]))):
            r = mk_node(c.id, v, r)
        return r

    def adt_subst(self, t):
        g = self.p.defs[t[1]].get("generics", [])
        return dict(zip(g, t[2]))

    def matrix_shape(self, t):
        if len(t[2]) < 3:
            return None
        def dim(x):
            if x[0] == "adt":
                pth = self.apath(x[1])
                if pth == "nalgebra::Const":
                    try:
                        return int(x[2][0][1])
                    except (ValueError, IndexError):
                        return None
                if pth == "nalgebra::Dynamic":
                    return "dyn"
            return None

        r, c = dim(t[2][1]), dim(t[2][2])
        if r == "dyn" and c == 1:
            return ("dyn", 1)
        if isinstance(r, int) and isinstance(c, int):
            return (r, c)
        return None

    def proj(self, base, f, t, depth=0):
        integer = t[0] in ("int", "char")
        a = app_atom("proj", (base, f), integer, meta={"show": "%r.%s" % (base, f)})
        return self.sym_value(a, t, depth)

    def idx(self, base, i, t):
        integer = t[0] in ("int", "char")
        if i.var is not None:
            return self.dmap_val(lambda l: self.idx(base, mk_leaf(l), t), i)
        a = app_atom("at", (base, i), integer, meta={"show": "%r[%r]" % (base, i)})
        return self.sym_value(a, t)

    def dmap_val(self, f, d):
        ls = leaves(d)
        r = f(ls[-1][1])
        for g, l in reversed(ls[:-1]):
            r = vite(g, f(l), r)
        return r

    def symbol(self, name, t):
        """fresh-named input of type t"""
        return self.sym_value(mk_atom("sym", (name,), t[0] in ("int", "char")), t)

    def app(self, name, args, t, extra=()):
        """uninterpreted function application with frozen arguments"""
        fa = [self.freeze(a) for a in args]
        # lift a small amount of gating out of scalar arguments
        comb = 1
        pick = None
        for k, a in enumerate(fa):
            if isinstance(a, DD) and a.var is not None and is_num(a):
                comb *= n_leaves(a)
                if pick is None:
                    pick = k
        if pick is not None and comb <= 4:
            return self.dmap_val(
                lambda l: self.app(name, fa[:pick] + [mk_leaf(l)] + fa[pick + 1:], t, extra), fa[pick])
        a = app_atom(name, tuple(fa), t[0] in ("int", "char"))
        return self.sym_value(a, t)

    def freeze(self, v, depth=0):
        """reference-free snapshot of a value"""
        if depth > 12:
            return v
        if isinstance(v, DD):
            ls = None
            d = v
            if d.var is None and isinstance(d.leaf, Ref):
                return self.freeze(self.read(Place(d.leaf.cell, d.leaf.path)), depth + 1)
            if d.var is None and isinstance(d.leaf, Clo):
                c = d.leaf
                env = {}
                for k, x in c.env.items():
                    if c.byref.get(k):
                        x = self.read(Place(x.leaf.cell, x.leaf.path)) if x.leaf.cell in self.st.store else x
                        env[k] = self.freeze(x, depth + 1)
                    else:
                        env[k] = self.freeze(x, depth + 1)
                return mk_leaf(Clo(c.body, env, {}, c.subst))
            if d.var is None and isinstance(d.leaf, Enum):
                return mk_leaf(Enum(d.leaf.adt, d.leaf.variant,
                                    {k: self.freeze(x, depth + 1) for k, x in d.leaf.fields.items()}))
            if d.var is None and isinstance(d.leaf, Boxed):
                return mk_leaf(Boxed(self.freeze(d.leaf.v, depth + 1)))
            if not is_num(d) and not is_bool(d):
                return self.dmap_val(lambda l: self.freeze(mk_leaf(l), depth + 1), d) if d.var is not None else d
            return d
        if isinstance(v, Struct):
            return Struct(v.adt, {k: self.freeze(x, depth + 1) for k, x in v.fields.items()})
        if isinstance(v, Tup):
            return Tup([self.freeze(x, depth + 1) for x in v.items])
        if isinstance(v, Lst):
            return Lst([self.freeze(x, depth + 1) for x in v.items])
        if isinstance(v, Comp):
            return Comp(v.n, v.b, self.freeze(v.body, depth + 1))
        return v

    # ------------------------------------------------------------ places
    def read(self, pl):
        if pl.cell not in self.st.store:
            if self.st.dead:
                return UNIT
            raise Unsupported("read of unknown cell")
        v = self.st.store[pl.cell]
        for e in pl.path:
            v = self.project(v, e)
        return v

    def project(self, v, e):
        if isinstance(v, DD):
            v2 = unbox(v)
            if v2 is not v:
                v = v2
        if isinstance(e, tuple):
            if e[0] == "v":
                return self.variant_field(v, e[1], e[2])
            if e[0] == "i":
                return self.index_value(v, e[1])
            if e[0] == "ij":
                return self.mat_get(v, e[1], e[2])
        if isinstance(v, Struct):
            if e in v.fields:
                return v.fields[e]
            raise Unsupported("field %s of %r" % (e, self.apath(v.adt)))
        if isinstance(v, Tup):
            return v.items[int(e)]
        if isinstance(v, DD):
            def f(l):
                if isinstance(l, Ref):
                    return self.project(self.read(Place(l.cell, l.path)), e)
                if isinstance(l, Boxed):
                    return self.project(l.v, e)
                if isinstance(l, Enum):
                    return l.fields[e]
                if isinstance(l, Opq):
                    t = self.field_type(l.ty, e)
                    return self.proj(l.atom, e, t)
                raise Unsupported("projection %s of %r" % (e, l))

            return self.dmap_val(f, v)
        if isinstance(v, Mat):
            # nalgebra coordinates access through Deref (x, y, z, w)
            if e in ("x", "y", "z", "w") and v.cols == 1:
                return v.get("xyzw".index(e), 0)
            if e == "data":
                return v
            if e == "0":  # the array storage of a static matrix: its columns
                return Lst([Lst([v.get(i, j) for i in range(v.rows)]) for j in range(v.cols)])
        if isinstance(v, Seq) and e == "data":
            return v  # nalgebra's storage of a vector
        raise Unsupported("projection %s of %s" % (e, type(v).__name__))

    def field_type(self, t, e):
        if t[0] == "adt":
            row = self.p.adts.get(t[1])
            if row and row["kind"] == "struct":
                for f in row["variants"][0]["fields"]:
                    if f["name"] == e and "ty" in f:
                        return self.p.subst(self.p.ty(f["ty"]), self.adt_subst(t))
        if t[0] == "tuple":
            return t[1][int(e)]
        return ("other", "field " + str(e))

    def variant_field(self, v, variant, f):
        if isinstance(v, Struct):
            return v.fields[f]
        ls = [(g, l) for g, l in leaves(v) if isinstance(l, Enum) and l.variant == variant]
        if not ls:
            ls2 = [(g, l) for g, l in leaves(v) if isinstance(l, Opq)]
            if ls2:
                return self.proj(ls2[0][1].atom, variant + "." + f, ("other", "payload"))
            return None
        care = bany(g for g, _ in ls)
        r = ls[-1][1].fields[f]
        for g, l in reversed(ls[:-1]):
            r = vite(restrict(g, care), l.fields[f], r)
        return r

    def write(self, pl, val):
        if self.st.dead:
            return
        if pl.cell in self.shared:
            raise Unsupported("write through a reference that moves from one iteration to the next")
        if not pl.path:
            self.st.store[pl.cell] = val
            return
        base = self.st.store.get(pl.cell)
        self.st.store[pl.cell] = self.upd(base, pl.path, val)

    def upd(self, v, path, val):
        if not path:
            return val
        e = path[0]
        if isinstance(v, DD):
            v = unbox(v)
        if isinstance(v, DD) and v.var is None and isinstance(v.leaf, Ref):
            self.write(Place(v.leaf.cell, v.leaf.path + tuple(path)), val)
            return v
        if isinstance(e, tuple) and e[0] == "v":
            def f(l):
                if isinstance(l, Enum) and l.variant == e[1]:
                    nf = dict(l.fields)
                    nf[e[2]] = self.upd(l.fields[e[2]], path[1:], val)
                    return mk_leaf(Enum(l.adt, l.variant, nf))
                return mk_leaf(l)

            return self.dmap_val(f, v)
        if isinstance(e, tuple) and e[0] == "ij":
            return self.mat_set(v, e[1], e[2], val)
        if isinstance(e, tuple) and e[0] == "i":
            i = e[1]
            if isinstance(v, Mat):
                k = self.const_int(i)
                if k is None:
                    raise Unsupported("symbolic matrix index")
                return self.mat_set(v, num(k % v.rows), num(k // v.rows), val)
            old = self.index_value(v, i) if len(path) > 1 else None
            nv = self.upd(old, path[1:], val)
            k = self.const_int(i)
            if isinstance(v, Lst) and k is not None and 0 <= k < len(v.items):
                it = list(v.items)
                it[k] = nv
                return Lst(it)
            if isinstance(v, Seq):
                return Upd(v, i, nv)
            raise Unsupported("indexed write to %r" % v)
        if isinstance(v, Struct):
            nf = dict(v.fields)
            nf[e] = self.upd(v.fields.get(e), path[1:], val)
            return Struct(v.adt, nf)
        if isinstance(v, Tup):
            it = list(v.items)
            it[int(e)] = self.upd(it[int(e)], path[1:], val)
            return Tup(it)
        if isinstance(v, Mat) and isinstance(e, str) and e in ("x", "y", "z", "w"):
            return self.mat_set(v, num("xyzw".index(e)), ZERO, val)
        if v is None:
            # uninitialised aggregate
            return Struct(None, {e: self.upd(None, path[1:], val)})
        raise Unsupported("write to %s of %s" % (e, type(v).__name__))

    def const_int(self, d):
        if isinstance(d, DD) and d.var is None and isinstance(d.leaf, Rat) and d.leaf.is_const():
            c = d.leaf.const()
            if c.denominator == 1:
                return int(c)
        return None

    def index_value(self, v, i):
        if isinstance(v, DD):
            u = unbox(v)
            if u is v:
                def f(l):
                    if isinstance(l, Ref):
                        return self.index_value(self.read(Place(l.cell, l.path)), i)
                    if isinstance(l, Opq):
                        return self.proj(l.atom, "[%r]" % i, ("other", "elem"))
                    raise Unsupported("index of %r" % (l,))
                return self.dmap_val(f, v)
            v = u
        if isinstance(v, Mat):
            k = self.const_int(i)
            if k is None:
                raise Unsupported("symbolic matrix index")
            return v.get(k % v.rows, k // v.rows)
        if isinstance(v, Seq):
            r = v.elem(i)
            if r is None:
                return num_atom(app_atom("oob", (self.freeze(v), i)))
            return r
        raise Unsupported("index of %s" % type(v).__name__)

    def mat_get(self, v, i, j):
        a, b = self.const_int(i), self.const_int(j)
        if a is None or b is None:
            raise Unsupported("symbolic matrix index")
        if not isinstance(v, Mat):
            raise Unsupported("matrix index of %r" % v)
        return v.get(a, b)

    def mat_set(self, v, i, j, val):
        a, b = self.const_int(i), self.const_int(j)
        if a is None or b is None or not isinstance(v, Mat):
            raise Unsupported("matrix write %r %r %r" % (i, j, type(v)))
        e = dict(v.ent)
        e[(a, b)] = val
        return Mat(v.rows, v.cols, e, v.default)

    def deref_place(self, v):
        """place designated by a reference value (or temp holding a boxed value)"""
        if isinstance(v, DD):
            u = unbox(v)
            if u is v:
                if v.var is None and isinstance(v.leaf, Ref):
                    return Place(v.leaf.cell, v.leaf.path)
                ls = leaves(v)
                if all(isinstance(l, Ref) for _, l in ls):
                    r = self.read(Place(ls[-1][1].cell, ls[-1][1].path))
                    for g, l in reversed(ls[:-1]):
                        r = vite(g, self.read(Place(l.cell, l.path)), r)
                    self.mixed.append(ls)
                    return Place(self.new_cell(r))
                # not a reference: Box or an opaque pointer
                def f(l):
                    if isinstance(l, Ref):
                        return self.read(Place(l.cell, l.path))
                    if isinstance(l, Opq) and l.ty[0] == "ref":
                        return self.sym_value(l.atom, l.ty[1])
                    if isinstance(l, Boxed):
                        return l.v
                    return mk_leaf(l)
                return Place(self.new_cell(self.dmap_val(f, v)))
            v = u
        return Place(self.new_cell(v))

    def deref(self, v):
        """value behind any number of references"""
        n = 0
        while isinstance(v, DD) and n < 10:
            u = unbox(v)
            if u is not v:
                v = u
                continue
            ls = leaves(v)
            if ls and any(isinstance(l, Ref) for _, l in ls):
                def f(l):
                    if isinstance(l, Ref):
                        return self.read(Place(l.cell, l.path))
                    return mk_leaf(l)
                v = self.dmap_val(f, v)
                n += 1
                continue
            break
        return v

    # ------------------------------------------------------------ branching and joining
    def branch(self, c, ft, ff):
        s0 = self.st
        if s0.dead:
            return UNIT
        c = restrict(c, s0.guard) if s0.guard is not TRUE else c
        if c is TRUE:
            return ft()
        if c is FALSE:
            return ff()
        self.st = s0.fork(c)
        v1 = ft() if not self.st.dead else UNIT
        s1 = self.st
        self.st = s0.fork(bnot(c))
        v2 = ff() if not self.st.dead else UNIT
        s2 = self.st
        if s1.dead:
            self.st = s2
            return v2
        if s2.dead:
            self.st = s1
            return v1
        self.st = self.merge(c, s1, s2)
        return self.vmerge(c, v1, v2)

    def vmerge(self, c, a, b):
        return vite(c, a, b)

    def merge(self, c, a, b):
        if a.dead:
            return b
        if b.dead:
            return a
        st = {}
        for k, v in a.store.items():
            w = b.store.get(k)
            if w is None:
                st[k] = v
            elif w is v:
                st[k] = v
            else:
                st[k] = self.vmerge(c, v, w)
        for k, w in b.store.items():
            if k not in st:
                st[k] = w
        return State(st, bor(a.guard, b.guard), False)

    def join_exits(self, exits):
        """[(state, value)] -> (state, value) joined by guards"""
        ex = [(s, v) for s, v in exits if not s.dead]
        if not ex:
            return State({}, FALSE, True), UNIT
        care = bany(s.guard for s, _ in ex)
        s, v = ex[-1]
        for s2, v2 in reversed(ex[:-1]):
            c = restrict(s2.guard, care)
            ns = self.merge(c, s2, s)
            v = self.vmerge(c, v2, v)
            s = ns
        return s, v

    # ------------------------------------------------------------ calling functions
    def ty(self, i):
        return self.p.subst(self.p.ty(i), self.frames[-1].subst) if self.frames else self.p.ty(i)

    def call_fn(self, did, args, subst):
        """interpret a local function body"""
        b = self.p.bodies[did]
        if self.depth >= self.max_depth or sum(1 for f in self.frames if f.fn == did) > 3:
            raise Unsupported("recursion in " + self.p.path(did))
        self.analysed.add(did)
        fr = Frame(did, subst)
        return self.run_frame(fr, b, args)

    def run_frame(self, fr, b, args):
        self.frames.append(fr)
        self.depth += 1
        try:
            for p, a in zip(b["params"], args):
                if p["pat"] is not None:
                    cell = self.new_cell(a)
                    self.bind_pat(p["pat"], Place(cell))
            if b["body"] is None:
                raise Unsupported("no body for " + b["path"])
            v = self.ev(b["body"])
            exits = fr.returns + [(self.st, v)]
            self.st, v = self.join_exits(exits) if fr.returns else (self.st, v)
            return v
        finally:
            self.frames.pop()
            self.depth -= 1

    def call_closure(self, c, args):
        """c: Clo leaf; args: list of values"""
        b = self.p.bodies[c.body]
        self.analysed.add(b["root"])
        fr = Frame(c.body, c.subst, c)
        # byref captures designate cells; by-value captures get their own cell per call
        for k, v in c.env.items():
            if c.byref.get(k):
                fr.vars[k] = ("ref", v)
            else:
                fr.vars[k] = self.new_cell(v)
        params = b["params"]
        # closure params: first is the closure itself (implicit) with pat null
        if len(params) == len(args) + 1:
            params = params[1:]
        return self.run_frame(fr, {"params": params, "body": b["body"], "path": b["path"]}, args)

    def apply(self, f, args, rty=None):
        """call a callable value"""
        f = self.deref(f)
        if isinstance(f, DD) and f.var is not None:
            ls = leaves(f)

            def go(k):
                if k == len(ls) - 1:
                    return self.apply(mk_leaf(ls[k][1]), args, rty)
                return self.branch(ls[k][0], lambda: self.apply(mk_leaf(ls[k][1]), args, rty), lambda: go(k + 1))

            return go(0)
        l = f.leaf if isinstance(f, DD) else None
        if isinstance(l, Clo):
            return self.call_closure(l, args)
        if isinstance(l, FnV):
            return self.call_def(l.d, l.ga, args, rty or ("other", "?"), {"sp": "?"})
        if isinstance(l, Opq):
            return self.app("call", [f] + list(args), rty or ("other", "call"))
        if isinstance(l, PyFn):
            return l.f(self, *args)
        raise Unsupported("call of %r" % (f,))

    def call_def(self, did, ga, args, rty, e):
        """call a definition (fn or trait method) with substituted generic args"""
        p = self.p
        d = p.defs[did]
        if did in self.override:
            r = self.override[did](self, args, ga, rty, e)
            if r is not NotImplemented:
                return r
        if d.get("trait") and "impl" not in d:
            r = self.resolve_trait(did, d, ga, args)
            if r is not None:
                did2, subst = r
                if did2 in self.override:
                    r = self.override[did2](self, args, ga, rty, e)
                    if r is not NotImplemented:
                        return r
                if did2 in self.boundary:
                    return self.call_boundary(did2, args, rty, e, ga)
                if did2 in p.derived and d["name"] in ("eq", "ne", "clone"):
                    return self.models.call(self, d["path"], did, ga, args, rty, e)
                if did2 in p.bodies:
                    return self.enter(did2, args, subst, rty, e)
        elif did in p.bodies:
            if did in self.boundary:
                return self.call_boundary(did, args, rty, e, ga)
            return self.enter(did, args, dict(zip(d.get("generics", []), ga)), rty, e)
        if did in self.boundary:
            return self.call_boundary(did, args, rty, e, ga)
        return self.models.call(self, d["path"], did, ga, args, rty, e)

    def enter(self, did, args, subst, rty, e):
        snap = self.st
        nev = len(self.events)
        try:
            return self.call_fn(did, args, subst)
        except Unsupported as x:
            if self.st.dead:
                raise
            self.unsupported.append((self.p.path(did), str(x)))
            raise

    def call_boundary(self, did, args, rty, e, ga=()):
        name = self.p.path(did)
        mode = self.boundary[did]
        fa = [self.freeze(a) for a in args]
        v = self.app(name, args, rty)
        self.event("call", callee=did, path=name, args=fa, site=self.site(e), result=v, ga=tuple(ga))
        self.havoc_muts(args, name, fa)
        if callable(mode):
            return mode(self, args, rty, v)
        return v

    def havoc_muts(self, args, name, fa):
        for k, a in enumerate(args):
            if isinstance(a, DD) and a.var is None and isinstance(a.leaf, Ref) and getattr(self, "_mutargs", None) and k in self._mutargs:
                pl = Place(a.leaf.cell, a.leaf.path)
                try:
                    old = self.read(pl)
                except Unsupported:
                    continue
                base = app_atom("out:%s:%d" % (name, k), tuple(fa))
                self.write(pl, self.havoc_like(old, base))

    def havoc_like(self, v, base, path=""):
        """fresh value of the same shape as v, identified by atom base"""
        if isinstance(v, DD):
            if is_num(v):
                integer = all(T.rat_is_integer(l) for _, l in leaves(v))
                return num_atom(app_atom("hv", (base, path), integer,
                                         meta={"show": "%r%s" % (base, path)}))
            if is_bool(v):
                return bool_atom("bool", (app_atom("hv", (base, path)),))
            ls = [l for _, l in leaves(v)]
            if all(isinstance(l, Enum) for l in ls):
                return self.havoc_enum(ls, base, path)
            if len(ls) == 1:
                l = ls[0]
                if isinstance(l, (Ref, Clo, FnV)):
                    return v
                if isinstance(l, Boxed):
                    return self.havoc_like(l.v, base, path)
                if isinstance(l, Opq):
                    return mk_leaf(Opq(app_atom("hv", (base, path)), l.ty))
            return mk_leaf(Opq(app_atom("hv", (base, path)), ("other", "havoc")))
        if isinstance(v, Struct):
            return Struct(v.adt, {k: self.havoc_like(x, base, path + "." + str(k)) for k, x in v.fields.items()})
        if isinstance(v, Tup):
            return Tup([self.havoc_like(x, base, path + "." + str(k)) for k, x in enumerate(v.items)])
        if isinstance(v, Mat):
            return Mat(v.rows, v.cols, {
                (i, j): self.havoc_like(v.get(i, j) if v.get(i, j) is not None else ZERO, base, "%s[%d,%d]" % (path, i, j))
                for i in range(v.rows) for j in range(v.cols)}, v.default)
        if isinstance(v, Seq):
            a = app_atom("hv", (base, path))
            proto = self.seq_proto(v)
            return OSeq(a, lambda at, i, proto=proto: self.havoc_elem(proto, at, i))
        if isinstance(v, Iter):
            return Iter(v.st, num_atom(app_atom("hv", (base, path + "@"), True)))
        if v is None:
            return None
        return v

    def havoc_elem(self, proto, at, i):
        if i.var is not None:
            return self.dmap_val(lambda l: self.havoc_elem(proto, at, mk_leaf(l)), i)
        return self.havoc_like(proto if proto is not None else ZERO, app_atom("at", (at, i)))

    def seq_proto(self, v):
        if isinstance(v, Lst):
            return v.items[0] if v.items else None
        if isinstance(v, Comp):
            return v.body
        if isinstance(v, OSeq):
            return v.elem(ZERO)
        if isinstance(v, Cat):
            for p in v.parts:
                r = self.seq_proto(p)
                if r is not None:
                    return r
        if isinstance(v, Upd):
            return v.v
        if isinstance(v, IteSeq):
            return self.seq_proto(v.a) or self.seq_proto(v.b)
        return None

    def havoc_enum(self, ls, base, path):
        b = app_atom("hv", (base, path))
        adt = ls[0].adt
        row = self.p.adts.get(adt)
        names = [v["name"] for v in row["variants"]] if row else sorted({l.variant for l in ls})
        if self.apath(adt) == OPTION:
            names = ["Some", "None"]
        byv = {l.variant: l for l in ls}
        vals = []
        for n in names:
            if n in byv:
                f = {k: self.havoc_like(x, b, "." + n + "." + k) for k, x in byv[n].fields.items()}
            else:
                f = None
                vr = None
                if row:
                    for v in row["variants"]:
                        if v["name"] == n:
                            vr = v
                if vr is not None and not vr["fields"]:
                    f = {}
                elif vr is not None and all("ty" in x for x in vr["fields"]):
                    f = {x["name"]: self.proj(b, n + "." + x["name"], self.p.ty(x["ty"])) for x in vr["fields"]}
            if f is None:
                continue  # variant not seen (yet): not reachable in this abstraction
            vals.append((n, mk_leaf(Enum(adt, n, f))))
        if len(vals) == 1:
            return vals[0][1]
        g = cond_group(tuple("is:" + n for n, _ in vals[:-1]), (b,), (key(b),))
        r = vals[-1][1]
        for c, (n, v) in reversed(list(zip(g, vals[:-1]))):
            r = mk_node(c.id, v, r)
        return r

    def resolve_trait(self, did, d, ga, args):
        """(impl fn id, subst) for a call of a trait method, or None"""
        p = self.p
        tr = d["trait"]
        tg = p.defs[tr].get("generics", ["Self"])
        nt = len(tg)
        targs = list(ga[:nt])
        own = list(ga[nt:])
        st = targs[0] if targs else None
        # dynamic type from the receiver value
        if st is not None and st[0] in ("dyn", "param", "alias", "other") and args:
            v = self.deref(args[0])
            if isinstance(v, Struct) and v.adt is not None and p.defs.get(v.adt, {}).get("local"):
                im = self.impl_for_adt(tr, v.adt)
                if im:
                    return self.impl_item(im, {}, did, own, d)
            elif isinstance(v, DD):
                ls = leaves(v)
                if ls and all(isinstance(l, Enum) for _, l in ls) and len({l.adt for _, l in ls}) == 1:
                    im = self.impl_for_adt(tr, ls[0][1].adt)
                    if im:
                        return self.impl_item(im, {}, did, own, d)
        if st is not None:
            m = p.find_impl(tr, tuple(targs))
            if m:
                return self.impl_item(m[0], m[1], did, own, d)
        # default body
        if did in p.bodies:
            return did, dict(zip(tg, targs), **dict(zip(d.get("generics", [])[nt:], own)))
        return None

    def impl_for_adt(self, tr, adt):
        for im in self.p.impl_by_trait.get(tr, ()):
            t = self.p.ty(im["self"])
            if t[0] == "adt" and t[1] == adt:
                return im
        return None

    def impl_item(self, im, s, did, own, d):
        it = im["_items"].get(did)
        if it:
            g = self.p.defs[it["id"]].get("generics", [])
            ig = self.p.defs[im["id"]].get("generics", [])
            sub = dict(s)
            sub.update(zip(g[len(ig):], own))
            return it["id"], sub
        if did in self.p.bodies:
            tg = self.p.defs[d["trait"]].get("generics", ["Self"])
            st = self.p.subst(self.p.ty(im["self"]), s)
            sub = {"Self": st}
            for n, a in zip(tg[1:], im.get("targs", [])[1:]):
                sub[n] = self.p.subst(self.p.ty(a), s)
            sub.update(zip(d.get("generics", [])[len(tg):], own))
            return did, sub
        return None

    # ------------------------------------------------------------ patterns
    def bind_var(self, var, v):
        fr = self.frames[-1]
        c = self.new_cell(v)
        fr.vars[var] = c
        return c

    def var_place(self, var):
        fr = self.frames[-1]
        c = fr.vars.get(var)
        if c is None:
            raise Unsupported("unbound variable " + var)
        if isinstance(c, tuple):
            return self.deref_place(c[1])
        return Place(c)

    def test_pat(self, pat, pl):
        """condition under which the place matches (no binding)"""
        k = pat["k"]
        if k in ("wild", "never"):
            return TRUE
        if k == "bind":
            return self.test_pat(pat["sub"], pl) if "sub" in pat else TRUE
        if k == "deref":
            return self.test_pat(pat["sub"], self.deref_place(self.read(pl)))
        if k == "leaf":
            c = TRUE
            for f, s in pat["subs"]:
                if not self.trivial(s):
                    c = band(c, self.test_pat(s, pl.ext(f)))
            return c
        if k == "variant":
            v = self.read(pl)
            c = self.is_variant(v, pat["v"])
            if c is FALSE:
                return c
            for f, s in pat["subs"]:
                if not self.trivial(s):
                    c = band(c, self.test_pat(s, pl.ext(("v", pat["v"], f))))
            return c
        if k == "const":
            return self.pat_const(self.deref(self.read(pl)), pat["value"])
        if k == "range":
            v = self.read(pl)
            c = TRUE
            if pat["lo"] is not None:
                c = band(c, ge(v, self.lit(pat["lo"])))
            if pat["hi"] is not None:
                c = band(c, (le if pat["incl"] else lt)(v, self.lit(pat["hi"])))
            return c
        if k == "or":
            return bany(self.test_pat(s, pl) for s in pat["pats"])
        if k == "slice":
            v = self.deref(self.read(pl))
            n = v.length()
            need = num(len(pat["prefix"]) + len(pat["suffix"]))
            c = eq(n, need) if pat["mid"] is None else ge(n, need)
            for i, s in enumerate(pat["prefix"]):
                if not self.trivial(s):
                    c = band(c, self.test_pat(s, pl.ext(("i", num(i)))))
            for i, s in enumerate(pat["suffix"]):
                if not self.trivial(s):
                    c = band(c, self.test_pat(s, pl.ext(("i", sub(n, num(len(pat["suffix"]) - i))))))
            return c
        raise Unsupported("pattern " + k)

    def trivial(self, pat):
        k = pat["k"]
        if k == "wild":
            return True
        if k == "bind":
            return "sub" not in pat or self.trivial(pat["sub"])
        if k in ("leaf",):
            return all(self.trivial(s) for _, s in pat["subs"])
        if k == "deref":
            return self.trivial(pat["sub"])
        return False

    def is_variant(self, v, name):
        v0 = v
        v = self.deref(v)
        if not isinstance(v, DD):
            return TRUE

        def f(l):
            if isinstance(l, Enum):
                return bconst(l.variant == name)
            if isinstance(l, Opq):
                return bool_atom("is?" + name, (l.atom,), (l.atom.id,))
            raise Unsupported("variant test of %r" % (l,))

        return dmap(f, v)

    def pat_const(self, v, c):
        if "str" in c or "other" in c:
            s = c.get("str") or c.get("other")
            if isinstance(v, DD):
                def f(l):
                    if isinstance(l, StrV):
                        return bconst(('"%s"' % l.s) == s or l.s == s)
                    return bool_atom("str=" + str(s), (mk_leaf(l),), (key(mk_leaf(l)),))
                return dmap(f, v)
            raise Unsupported("string pattern")
        w = self.lit(c)
        if is_bool(w):
            return v if w is TRUE else bnot(v)
        return eq(v, w)

    def bind_pat(self, pat, pl):
        k = pat["k"]
        if k in ("wild", "never", "const", "range"):
            return
        if k == "bind":
            if pat["ref"]:
                v = mk_leaf(Ref(pl.cell, pl.path))
            else:
                v = self.read(pl)
            self.cell_ty[self.bind_var(pat["var"], v)] = pat.get("ty")
            if "sub" in pat:
                self.bind_pat(pat["sub"], pl)
            return
        if k == "deref":
            if self.nobind(pat):
                return
            self.bind_pat(pat["sub"], self.deref_place(self.read(pl)))
            return
        if k == "leaf":
            for f, s in pat["subs"]:
                if not self.nobind(s):
                    self.bind_pat(s, pl.ext(f))
            return
        if k == "variant":
            for f, s in pat["subs"]:
                if not self.nobind(s):
                    v = self.read(pl)
                    if isinstance(v, DD) and v.var is None and isinstance(v.leaf, Ref):
                        pl = Place(v.leaf.cell, v.leaf.path)
                    self.bind_pat(s, pl.ext(("v", pat["v"], f)))
            return
        if k == "or":
            # bindings under alternatives: join by which alternative matched
            alts = [(self.test_pat(s, pl), s) for s in pat["pats"]]
            binds = []
            for c, s in alts:
                if c is FALSE:
                    continue
                self.bind_pat(s, pl)
                fr = self.frames[-1]
                names = self.pat_vars(s)
                binds.append((c, {n: self.st.store[fr.vars[x]] for n, x in names.items()}, names))
            if not binds:
                return
            allnames = binds[0][2]
            for n in allnames:
                v = binds[-1][1][n]
                for c, b, _ in reversed(binds[:-1]):
                    v = vite(c, b[n], v)
                for _, _, nm in binds:
                    self.bind_var(nm[n], v)
            return
        if k == "slice":
            v = self.deref(self.read(pl))
            vv = self.read(pl)
            if isinstance(vv, DD) and vv.var is None and isinstance(vv.leaf, Ref):
                pl = Place(vv.leaf.cell, vv.leaf.path)
            n = v.length()
            for i, s in enumerate(pat["prefix"]):
                self.bind_pat(s, pl.ext(("i", num(i))))
            for i, s in enumerate(pat["suffix"]):
                self.bind_pat(s, pl.ext(("i", sub(n, num(len(pat["suffix"]) - i)))))
            if pat["mid"] is not None and not self.nobind(pat["mid"]):
                lo = num(len(pat["prefix"]))
                m = sub(n, num(len(pat["prefix"]) + len(pat["suffix"])))
                b = fresh_bound("s")
                c = self.new_cell(Comp(m, b, v.elem(add(lo, num_atom(b)))))
                self.bind_pat(pat["mid"], Place(c))
            return
        raise Unsupported("binding pattern " + k)

    def pat_vars(self, pat):
        r = {}
        if pat["k"] == "bind":
            r[pat["name"]] = pat["var"]
        for key_ in ("sub", "mid"):
            if isinstance(pat.get(key_), dict):
                r.update(self.pat_vars(pat[key_]))
        for x in pat.get("subs", []):
            r.update(self.pat_vars(x[1]))
        for key_ in ("prefix", "suffix", "pats"):
            for x in pat.get(key_, []):
                r.update(self.pat_vars(x))
        return r

    def nobind(self, pat):
        return not self.pat_vars(pat)

    # ------------------------------------------------------------ literals
    def lit(self, v):
        if "f64" in v:
            return T.parse_num(v["f64"])
        if "f32" in v:
            return T.parse_num(v["f32"])
        if "int" in v:
            return num(int(v["int"]))
        if "bool" in v:
            return bconst(v["bool"])
        if "str" in v:
            return mk_leaf(StrV(v["str"]))
        if "char" in v:
            return num(v["char"])
        if "bytes" in v:
            return mk_leaf(StrV("b:" + v["bytes"]))
        return mk_leaf(StrV(str(v)))

    # ------------------------------------------------------------ expressions
    def ev(self, e):
        if self.st.dead:
            return UNIT
        return getattr(self, "e_" + e["k"])(e)

    def place(self, e):
        """evaluate a place expression; rvalues are spilled to a temporary"""
        k = e["k"]
        if k in ("var", "upvar"):
            return self.var_place(e["var"])
        if k == "field":
            return self.place(e["e"]).ext(e["n"]) if self.is_place(e["e"]) else Place(
                self.new_cell(self.ev(e["e"]))).ext(e["n"])
        if k == "deref":
            if self.is_place(e["e"]):
                pl = self.place(e["e"])
                v = self.read(pl)
                if isinstance(v, DD) and v.var is None and isinstance(v.leaf, Ref):
                    return Place(v.leaf.cell, v.leaf.path)
                if isinstance(v, DD) and any(isinstance(l, (Ref,)) for _, l in leaves(v)):
                    return self.deref_place(v)
                if isinstance(v, DD) and any(isinstance(l, Opq) and l.ty[0] == "ref" for _, l in leaves(v)):
                    return self.deref_place(v)
                return pl  # Box: same place
            return self.deref_place(self.ev(e["e"]))
        if k == "index":
            pl = self.place(e["e"])
            i = self.ev(e["i"])
            self.bounds(self.read(pl), i, e)
            return pl.ext(("i", i))
        if k == "use" and self.is_place(e["e"]):
            return self.place(e["e"])
        return Place(self.new_cell(self.ev(e)))

    def is_place(self, e):
        return e["k"] in ("var", "upvar", "field", "deref", "index") or (
            e["k"] == "use" and self.is_place(e["e"]) and False)

    def bounds(self, v, i, e):
        v = self.deref(v)
        if isinstance(v, Seq) and isinstance(i, DD):
            n = v.length()
            c = bnot(lt(i, n))
            c = restrict(c, self.st.guard)
            if c is not FALSE:
                self.event("index", cond=c, index=i, len=n, site=self.site(e))

    def e_var(self, e):
        return self.read(self.var_place(e["var"]))

    e_upvar = e_var

    def e_field(self, e):
        return self.read(self.place(e))

    def e_deref(self, e):
        return self.read(self.place(e))

    def e_index(self, e):
        return self.read(self.place(e))

    def e_use(self, e):
        x = e["e"]
        if x["k"] in ("loop", "use") and "sc" in e:  # the scopes of a loop that never ends normally lie on its coercion
            x = dict(x, sc=list(x.get("sc", [])) + list(e["sc"]))
        return self.ev(x)

    def e_lit(self, e):
        return self.lit(e["value"])

    def e_zst(self, e):
        t = self.ty(e["ty"])
        if t[0] == "fndef":
            return mk_leaf(FnV(t[1], t[2]))
        return UNIT

    def e_const(self, e):
        d = self.p.defs[e["def"]]
        path = d["path"]
        r = self.models.named_const(path)
        if r is not None:
            return r
        did = e["def"]
        if d.get("trait") and "impl" not in d:
            ga = tuple(self.p.subst(self.p.ty(g), self.frames[-1].subst) for g in e["ga"])
            m = self.p.find_impl(d["trait"], ga[:len(self.p.defs[d["trait"]].get("generics", ["Self"]))])
            if m:
                it = m[0]["_items"].get(did)
                if it:
                    did = it["id"]
        if did in self.p.bodies:
            return self.call_fn(did, [], dict(zip(d.get("generics", []), (
                self.p.subst(self.p.ty(g), self.frames[-1].subst) for g in e["ga"]))))
        if "value" in e:
            return self.lit(e["value"])
        if "value" in d:
            return self.lit(d["value"])
        return self.sym_value(mk_atom("const", (path,), False), self.ty(e["ty"]))

    def e_constblock(self, e):
        return self.call_fn(e["def"], [], self.frames[-1].subst)

    def e_constparam(self, e):
        t = self.frames[-1].subst.get(e["n"])
        if t and t[0] == "const" and t[1].isdigit():
            return num(int(t[1]))
        return num_atom(mk_atom("constparam", (e["n"],), True))

    def e_static(self, e):
        self.event("static", d=e["def"], site=self.site(e))
        return self.ref(mk_leaf(Opq(mk_atom("static", (self.p.path(e["def"]),)), ("other", "static"))))

    e_threadlocal = e_static

    def e_unsupported(self, e):
        raise Unsupported(e["what"])

    def e_borrow(self, e):
        if self.is_place(e["e"]) or e["e"]["k"] == "use":
            pl = self.place(e["e"])
            return mk_leaf(Ref(pl.cell, pl.path))
        return self.ref(self.ev(e["e"]))

    def e_coerce(self, e):
        return self.ev(e["e"])

    def e_cast(self, e):
        v = self.ev(e["e"])
        src = self.ty(e["e"]["ty"])
        dst = self.ty(e["ty"])
        if isinstance(v, DD) and is_num(v):
            if src[0] == "float" and dst[0] == "int":
                v = dmap(lambda r: mk_leaf(r) if (r.is_const() and r.const().denominator == 1) else num_atom(
                    app_atom("trunc", (mk_leaf(r),), True)), v)
            return narrowed(v, src, dst)
        if isinstance(v, DD) and is_bool(v) and dst[0] in ("int", "float"):
            return vite(v, ONE, ZERO)
        if isinstance(v, DD) and dst[0] in ("int",):
            return self.app("discr", [v], dst)
        return v

    def e_bin(self, e):
        l = self.ev(e["l"])
        r = self.ev(e["r"])
        return self.binop(e["op"], l, r, self.ty(e["l"]["ty"]), e)

    def binop(self, op, l, r, t, e):
        if self.st.dead:
            return UNIT
        l, r = self.deref(l), self.deref(r)
        if not (isinstance(l, DD) and isinstance(r, DD)):
            raise Unsupported("binary %s on %s" % (op, type(l).__name__))
        if is_bool(l) and is_bool(r):
            if op == "BitAnd":
                return band(l, r)
            if op == "BitOr":
                return bor(l, r)
            if op in ("BitXor", "Ne"):
                return ite(l, bnot(r), r)
            if op == "Eq":
                return ite(l, r, bnot(r))
        if not (is_num(l) and is_num(r)):
            if op in ("Eq", "Ne"):
                c = self.models.val_eq(self, l, r)
                return c if op == "Eq" else bnot(c)
            return self.app("bin:" + op, [l, r], t if op not in ("Lt", "Le", "Gt", "Ge") else ("bool",))
        if op == "Add":
            return add(l, r)
        if op == "Sub":
            if t[0] == "int" and t[1].startswith("u"):
                c = restrict(lt(l, r), self.st.guard)
                if c is not FALSE:
                    self.event("underflow", cond=c, a=l, b=r, site=self.site(e))
            return sub(l, r)
        if op == "Mul":
            return mul(l, r)
        if op == "Div":
            if t[0] == "int":
                c = restrict(eq(r, ZERO), self.st.guard)
                if c is not FALSE:
                    self.event("divzero", cond=c, b=r, site=self.site(e))
                k, m = self.const_int(l), self.const_int(r)
                if k is not None and m:
                    return num(abs(k) // abs(m) * (1 if (k < 0) == (m < 0) else -1))
                return self.app("idiv", [l, r], t)
            return div(l, r)
        if op == "Rem":
            k, m = self.const_int(l), self.const_int(r)
            if t[0] == "int":
                c = restrict(eq(r, ZERO), self.st.guard)
                if c is not FALSE:
                    self.event("divzero", cond=c, b=r, site=self.site(e))
                if k is not None and m:
                    return num(abs(k) % abs(m) * (1 if k >= 0 else -1))
            return self.app("rem", [l, r], t)
        if op == "Lt":
            return lt(l, r)
        if op == "Le":
            return le(l, r)
        if op == "Gt":
            return gt(l, r)
        if op == "Ge":
            return ge(l, r)
        if op == "Eq":
            return eq(l, r)
        if op == "Ne":
            return bnot(eq(l, r))
        return self.app("bin:" + op, [l, r], t)

    def e_un(self, e):
        v = self.deref(self.ev(e["e"]))
        if self.st.dead:
            return UNIT
        if e["op"] == "Not":
            if is_bool(v):
                return bnot(v)
            return self.app("not", [v], self.ty(e["ty"]))
        if e["op"] == "Neg":
            return neg(v)
        raise Unsupported("unary " + e["op"])

    def e_logic(self, e):
        l = self.cond(e["l"])
        if self.st.dead:
            return UNIT
        if e["op"] == "and":
            return self.branch(l, lambda: self.cond(e["r"]), lambda: FALSE)
        return self.branch(l, lambda: TRUE, lambda: self.cond(e["r"]))

    def cond(self, e):
        v = self.ev(e)
        if self.st.dead:
            return FALSE
        v = self.deref(v)
        if not isinstance(v, DD) or not is_bool(v):
            raise Unsupported("non-boolean condition %r" % (v,))
        return v

    def e_let(self, e):
        pl = self.place(e["e"])
        if self.st.dead:
            return FALSE
        c = restrict(self.test_pat(e["pat"], pl), self.st.guard)
        if c is not FALSE:
            self.bind_pat(e["pat"], pl)
        return c

    def e_if(self, e):
        c = self.cond(e["c"])
        if self.st.dead:
            return UNIT
        return self.branch(
            c, lambda: self.ev(e["t"]), lambda: self.ev(e["f"]) if e["f"] else UNIT)

    def e_match(self, e):
        if e["src"].startswith("ForLoopDesugar") and len(e["arms"]) == 1:
            return self.for_loop(e)
        pl = self.place(e["e"])
        if self.st.dead:
            return UNIT
        arms = e["arms"]

        def go(k):
            if k >= len(arms):
                return self.die()
            a = arms[k]
            c = restrict(self.test_pat(a["pat"], pl), self.st.guard)
            if c is FALSE:
                return go(k + 1)
            if a["guard"] is None and k == len(arms) - 1:
                c = TRUE

            def take():
                self.bind_pat(a["pat"], pl)
                if a["guard"] is None:
                    return self.ev(a["body"])
                g = self.cond(a["guard"])
                return self.branch(g, lambda: self.ev(a["body"]), lambda: go(k + 1))

            return self.branch(c, take, lambda: go(k + 1))

        return go(0)

    def e_block(self, e):
        if "label" in e:
            fr = self.frames[-1]
            lab = {"label": [e["label"]] + e.get("sc", []), "breaks": [], "conts": []}
            fr.labels.append(lab)
            v = self.block(e)
            fr.labels.pop()
            if lab["breaks"]:
                self.st, v = self.join_exits(lab["breaks"] + [(self.st, v)])
            return v
        return self.block(e)

    def block(self, e):
        for s in e["stmts"]:
            if self.st.dead:
                return UNIT
            if s["s"] == "e":
                self.ev(s["e"])
            else:
                self.let(s)
        if e["expr"] is not None:
            return self.ev(e["expr"])
        return UNIT

    def let(self, s):
        if s["init"] is None:
            def decl(p):
                for n, v in self.pat_vars(p).items():
                    self.frames[-1].vars[v] = self.new_cell(None)
                if p["k"] == "bind":
                    self.cell_ty[self.frames[-1].vars[p["var"]]] = p.get("ty")
            decl(s["pat"])
            return
        if s["pat"]["k"] == "bind" and not s["pat"]["ref"] and "sub" not in s["pat"]:
            v = self.ev(s["init"])
            if self.st.dead:
                return
            self.cell_ty[self.bind_var(s["pat"]["var"], v)] = s["pat"].get("ty")
            return
        pl = self.place(s["init"])
        if self.st.dead:
            return
        if s["else"] is not None:
            c = self.test_pat(s["pat"], pl)

            def no():
                self.block(s["else"])
                return UNIT

            s0 = self.st
            self.branch(c, lambda: UNIT, no)
            if self.st.dead:
                return
        self.bind_pat(s["pat"], pl)

    def e_assign(self, e):
        v = self.ev(e["r"])
        if self.st.dead:
            return UNIT
        if e["l"]["k"] == "tuple" or (e["l"]["k"] == "use"):
            pass
        pl = self.place(e["l"])
        if not self.st.dead:
            self.write(pl, v)
        return UNIT

    def e_assignop(self, e):
        r = self.ev(e["r"])
        if self.st.dead:
            return UNIT
        pl = self.place(e["l"])
        l = self.read(pl)
        op = e["op"].replace("Assign", "")
        v = self.binop(op, l, r, self.ty(e["l"]["ty"]), e)
        if not self.st.dead:
            self.write(pl, v)
        return UNIT

    def e_array(self, e):
        out = []
        for x in e["es"]:
            out.append(self.ev(x))
            if self.st.dead:
                return UNIT
        return Lst(out)

    def e_tuple(self, e):
        out = []
        for x in e["es"]:
            out.append(self.ev(x))
            if self.st.dead:
                return UNIT
        return Tup(out)

    def e_repeat(self, e):
        v = self.ev(e["e"])
        n = e["n"]
        t = self.frames[-1].subst.get(n)
        if t and t[0] == "const":
            n = t[1]
        if n.isdigit() and int(n) <= 128:
            return Lst([v] * int(n))
        b = fresh_bound("r")
        return Comp(num(int(n)) if n.isdigit() else num_atom(mk_atom("constparam", (n,), True)), b, v)

    def e_adt(self, e):
        row = self.p.adts.get(e["def"])
        fs = {}
        for n, x in e["fields"]:
            fs[n] = self.ev(x)
            if self.st.dead:
                return UNIT
        if e["base"] is not None:
            b = self.ev(e["base"])
            if self.st.dead:
                return UNIT
            b = self.deref(b)
            names = [f["name"] for f in row["variants"][0]["fields"]]
            for n in names:
                if n not in fs:
                    fs[n] = self.project(b, n)
        if row and row["kind"] == "enum":
            return mk_leaf(Enum(e["def"], e["v"], fs))
        order = [f["name"] for f in row["variants"][0]["fields"]] if row else list(fs)
        return Struct(e["def"], {n: fs[n] for n in order if n in fs})

    def e_closure(self, e):
        b = self.p.bodies[e["def"]]
        env, byref = {}, {}
        fr = self.frames[-1]
        cap = {}
        for u in b["upvars"]:
            cap[u["var"]] = cap.get(u["var"], False) or u["ref"]
        for var, isref in cap.items():
            pl = self.var_place(var)
            if isref:
                env[var] = mk_leaf(Ref(pl.cell, pl.path))
                byref[var] = True
            else:
                env[var] = self.read(pl)
        return mk_leaf(Clo(e["def"], env, byref, fr.subst))

    def e_call(self, e):
        p = self.p
        d = p.defs[e["def"]]
        fr = self.frames[-1]
        args = []
        for x in e["args"]:
            args.append(self.ev(x))
            if self.st.dead:
                return UNIT
        ga = tuple(p.subst(p.ty(g), fr.subst) for g in e["ga"])
        rty = self.ty(e["ty"])
        # tuple-struct / variant constructors
        if d["kind"].startswith("Ctor"):
            return self.ctor(e, d, args, rty)
        self._mutargs = {k for k, x in enumerate(e["args"]) if (lambda t: t[0] == "ref" and t[2])(self.ty(x["ty"]))}
        v = self.call_def(e["def"], ga, args, rty, e)
        if rty[0] == "never" and not self.st.dead:
            self.event("panic", callee=d["path"], args=[], site=self.site(e))
            return self.die()
        return v

    def ctor(self, e, d, args, rty):
        if rty[0] != "adt":
            raise Unsupported("ctor type")
        row = self.p.adts[rty[1]]
        name = d["name"] or d["path"].split("::")[-1]
        if row["kind"] == "enum":
            name = d["path"].split("::")[-1]
            return mk_leaf(Enum(rty[1], name, {str(i): a for i, a in enumerate(args)}))
        return Struct(rty[1], {str(i): a for i, a in enumerate(args)})

    def e_callv(self, e):
        f = self.ev(e["f"])
        args = []
        for x in e["args"]:
            args.append(self.ev(x))
            if self.st.dead:
                return UNIT
        return self.apply(f, args, self.ty(e["ty"]))

    def e_return(self, e):
        v = self.ev(e["e"]) if e["e"] is not None else UNIT
        if not self.st.dead:
            self.frames[-1].returns.append((self.st, v))
            self.die()
        return UNIT

    def find_label(self, l):
        for lab in reversed(self.frames[-1].labels):
            if l in lab["label"]:
                return lab
        # unlabelled fallback: innermost loop
        raise Unsupported("break target %s of %s" % (l, [x["label"] for x in self.frames[-1].labels]))

    def e_break(self, e):
        v = self.ev(e["e"]) if e["e"] is not None else UNIT
        if not self.st.dead:
            self.find_label(e["label"])["breaks"].append((self.st, v))
            self.die()
        return UNIT

    def e_continue(self, e):
        self.find_label(e["label"])["conts"].append((self.st, UNIT))
        self.die()
        return UNIT

    # ------------------------------------------------------------ loops
    def for_loop(self, e):
        """match IntoIterator::into_iter(x) { mut iter => loop { match next(&mut iter) {...} } }"""
        itv = self.ev(e["e"])
        if self.st.dead:
            return UNIT
        arm = e["arms"][0]
        loop = arm["body"]
        while loop["k"] in ("use", "block"):
            loop = loop["e"] if loop["k"] == "use" else loop["expr"]
        body = loop["body"]
        while body["k"] in ("use", "block"):
            if body["k"] == "use":
                body = body["e"]
            elif body["expr"] is not None and not body["stmts"]:
                body = body["expr"]
            elif body["stmts"] and body["expr"] is None:
                body = body["stmts"][0]["e"]
            else:
                break
        # body is match next(..) { None => break, Some(pat) => ... }
        some = None
        for a in body["arms"]:
            if a["pat"]["k"] == "variant" and a["pat"]["v"] == "Some":
                some = a
        pat = some["pat"]["subs"][0][1] if some["pat"]["subs"] else {"k": "wild"}
        labels = list(loop.get("sc", []))
        it = itv
        if not isinstance(it, Iter):
            it = self.models.into_iter(self, itv, e)
        st = it.st

        def run(i):
            x = st.get(self, add(it.pos, i))
            if self.st.dead:
                return
            pl = Place(self.new_cell(x))
            self.bind_pat(pat, pl)
            self.ev(some["body"])

        n = st.length(self)
        if it.pos is not ZERO:
            n = sub(n, it.pos)
        k = self.const_int(n)
        if k is not None and k <= 16 and not self.has_exit(some["body"]):
            return self.unroll(k, run, labels)
        if k is not None and k <= 4 and isinstance(getattr(st, "v", None), Lst):
            return self.unroll(k, run, labels)
        self.loop(n, run, labels, e)
        return UNIT

    def has_exit(self, e):
        """syntactic: does the loop body return or break out"""
        if isinstance(e, dict):
            if e.get("k") in ("return", "break"):
                return True
            if e.get("k") == "closure":
                return False
            return any(self.has_exit(v) for v in e.values())
        if isinstance(e, list):
            return any(self.has_exit(v) for v in e)
        return False

    def unroll(self, k, run, labels):
        lab = {"label": labels, "breaks": [], "conts": []}
        fr = self.frames[-1]
        fr.labels.append(lab)
        for i in range(k):
            run(num(i))
            if lab["conts"]:
                self.st, _ = self.join_exits(lab["conts"] + [(self.st, UNIT)])
                lab["conts"] = []
            if self.st.dead:
                break
        fr.labels.pop()
        v = UNIT
        if lab["breaks"]:
            self.st, v = self.join_exits(lab["breaks"] + [(self.st, UNIT)])
        return v

    def int_test(self, b):
        """the comparison of integers that a loop body starts with"""
        while b["k"] in ("use", "block"):
            if b["k"] == "use":
                b = b["e"]
            elif b["stmts"]:
                if b["stmts"][0]["s"] != "e":
                    return None
                b = b["stmts"][0]["e"]
            else:
                b = b["expr"]
            if b is None:
                return None
        if b["k"] != "if":
            return None
        c = b["c"]
        while c["k"] == "use":
            c = c["e"]
        if c["k"] == "bin" and c["op"] in ("Lt", "Le", "Gt", "Ge", "Eq", "Ne") and self.ty(c["l"]["ty"])[0] == "int":
            return c
        return None

    def run_counted(self, run, labels, c):
        """run a loop whose test is decided in every iteration; None when it is not, or not within a few iterations"""
        s0, ev0, fr = self.st, len(self.events), self.frames[-1]
        nret, known = len(fr.returns), set(self.loopinfo)
        self.st = State(dict(s0.store), s0.guard, s0.dead)
        lab = {"label": labels, "breaks": [], "conts": []}
        done = False
        for i in range(13):
            keep, ne = self.st, len(self.events)
            self.st = State(dict(keep.store), keep.guard, keep.dead)
            v = restrict(self.cond(c), keep.guard)
            self.st = keep
            del self.events[ne:]
            if v is not TRUE and v is not FALSE:
                break
            fr.labels.append(lab)
            run(num(i))
            fr.labels.pop()
            if lab["conts"]:
                self.st, _ = self.join_exits(lab["conts"] + [(self.st, UNIT)])
                lab["conts"] = []
            if self.st.dead:
                done = True
                break
            if restrict(self.st.guard, s0.guard) is not TRUE:
                break  # an iteration may leave the loop for a reason of its own: it is summarised instead
        if not done:
            self.st = s0
            del self.events[ev0:], fr.returns[nret:]
            for q in set(self.loopinfo) - known:
                del self.loopinfo[q]
                getattr(self, "odeloops", {}).pop(q, None)
            return None
        v = UNIT
        if lab["breaks"]:
            self.st, v = self.join_exits(lab["breaks"])
        return v

    def e_loop(self, e):
        labels = list(e.get("sc", []))

        def run(i):
            self.ev(e["body"])

        c = self.int_test(e["body"])
        if c is not None:
            v = self.run_counted(run, labels, c)
            if v is not None:
                return v
        return self.loop(None, run, labels, e)

    # leaf-level view of the store
    def leafmap(self, v, path, out):
        if isinstance(v, Struct):
            for k, x in v.fields.items():
                self.leafmap(x, path + (k,), out)
        elif isinstance(v, Tup):
            for k, x in enumerate(v.items):
                self.leafmap(x, path + (str(k),), out)
        else:
            out[path] = v

    def diff(self, a, b, path, out, whole=()):
        """leaf paths where b differs from a; enums are taken apart where both are of one and the same variant"""
        if a is b:
            return
        la, lb = (x.leaf if isinstance(x, DD) and x.var is None else None for x in (a, b))
        if isinstance(la, Enum) and isinstance(lb, Enum) and la.variant == lb.variant and path not in whole \
                and la.fields and la.fields.keys() == lb.fields.keys():
            for k in la.fields:
                self.diff(la.fields[k], lb.fields[k], path + (("v", la.variant, k),), out, whole)
            return
        if isinstance(a, Struct) and isinstance(b, Struct) and a.fields.keys() == b.fields.keys():
            for k in a.fields:
                self.diff(a.fields[k], b.fields[k], path + (k,), out, whole)
            return
        if isinstance(a, Tup) and isinstance(b, Tup) and len(a.items) == len(b.items):
            for k in range(len(a.items)):
                self.diff(a.items[k], b.items[k], path + (str(k),), out, whole)
            return
        if a is not None and b is not None and key(a) == key(b):
            return
        out.append((path, a, b))

    def getp(self, v, path):
        for e in path:
            v = self.project(v, e)
        return v

    def setp(self, store, cell, path, val):
        def go(v, p):
            if not p:
                return val
            if isinstance(v, Struct):
                f = dict(v.fields)
                f[p[0]] = go(f[p[0]], p[1:])
                return Struct(v.adt, f)
            if isinstance(p[0], tuple):
                f = dict(v.leaf.fields)
                f[p[0][2]] = go(f[p[0][2]], p[1:])
                return mk_leaf(Enum(v.leaf.adt, v.leaf.variant, f))
            it = list(v.items)
            it[int(p[0])] = go(it[int(p[0])], p[1:])
            return Tup(it)

        store[cell] = go(store[cell], path)

    def snap(self, v):
        """v with every reference replaced by what it points at"""
        if isinstance(v, DD):
            if is_num(v) or is_bool(v):
                return v

            def f(l):
                if isinstance(l, Ref):
                    return self.snap(self.read(Place(l.cell, l.path)))
                if isinstance(l, Enum):
                    return mk_leaf(Enum(l.adt, l.variant, {k: self.snap(x) for k, x in l.fields.items()}))
                return mk_leaf(l)
            return self.dmap_val(f, v)
        if isinstance(v, Struct):
            return Struct(v.adt, {k: self.snap(x) for k, x in v.fields.items()})
        if isinstance(v, Tup):
            return Tup([self.snap(x) for x in v.items])
        if isinstance(v, Lst):
            return Lst([self.snap(x) for x in v.items])
        if isinstance(v, Cat):
            return mk_cat([self.snap(x) for x in v.parts])
        return v

    def settle(self, end, moving, cells):
        """what the moving references point at, at the end of an iteration"""
        keep, self.st = self.st, end
        now = {}
        for (c, p), cell in moving.items():
            r = self.getp(end.store[c], p)
            if not is_refs(r):
                raise Unsupported("a reference that moves from one iteration to the next is not followed")
            now[cell] = self.read(self.deref_place(r))
        self.st = keep
        for (c, p), cell in moving.items():
            self.setp(end.store, c, p, mk_leaf(Ref(cell)))
        own = {(c, p) for c, p in moving}
        for c in cells:
            if end.store.get(c) is not None:
                for path, cell in refs_in(end.store[c]):
                    if cell in now and (c, path) not in own:
                        raise Unsupported("a reference that moves from one iteration to the next is kept elsewhere")
        for cell, v in now.items():
            end.store[cell] = v

    def loop(self, n, run, labels, e, want_yield=None):
        """summarise a loop. n: trip count (DD) or None. run(i) executes one iteration.
        returns the loop's value (break value); want_yield maps the sequence of per-iteration values to the value of a
        loop that ran to its end"""
        self.uid += 1
        L = self.uid
        s0 = self.st
        fr = self.frames[-1]
        # everything a nested loop leaves behind differs from one iteration of the surrounding loops to the next
        tail = tuple(num_atom(self.its[q]) for q in self.loopstack)
        ib = mk_atom("it", (L,) + tail, True, (L,) + tuple(key(x) for x in tail))
        self.its[L] = ib
        I = num_atom(ib)
        hav = {}  # (cell,path) -> (x0, X)
        moving = {}  # (cell,path) of a reference that points somewhere else in every iteration -> cell for its target
        ev0 = len(self.events)
        passes = 0
        while True:
            passes += 1
            if passes > 30:
                raise Unsupported("loop summary does not stabilise")
            del self.events[ev0:]
            for q in [q for q, i in self.loopinfo.items() if L in i["parent"]]:
                del self.loopinfo[q]  # summaries of an abandoned pass
                getattr(self, "odeloops", {}).pop(q, None)
            store = dict(s0.store)
            for (c, p), (x0, X) in hav.items():
                self.setp(store, c, p, X)
            lab = {"label": labels, "breaks": [], "conts": []}
            fr.labels.append(lab)
            nret = len(fr.returns)
            inn = bool_atom("iterating", (L,), (L,))
            g1 = s0.guard
            self.st = State(dict(store), g1, False)
            self.loopstack.append(L)
            y = run(I)
            self.loopstack.pop()
            fr.labels.pop()
            rets = fr.returns[nret:]
            del fr.returns[nret:]
            ends = lab["conts"] + [(self.st, UNIT)]
            if want_yield and lab["conts"]:
                raise Unsupported("continue in yielding loop")
            if lab["conts"]:
                end, _ = self.join_exits(ends)
            else:
                end = self.st
            outs = [] if end.dead else [end]
            new = False
            cand = outs
            if moving and outs:
                self.settle(end, moving, set(s0.store))
            for s in cand:
                for c, v0 in s0.store.items():
                    cur = store[c]
                    nv = s.store.get(c)
                    if nv is cur or nv is None:
                        continue
                    d = []
                    self.diff(cur, nv, (), d, {p for c2, p in hav if c2 == c})
                    for path, a, b in d:
                        k = (c, path)
                        if b is not None and not is_refs(b) and any(True for _ in refs_in(b)):
                            # references kept from one iteration to the next stand for what they point at
                            if self.cell_ty.get(c) is None or mut_ref(self.p, self.p.ty(self.cell_ty[c])):
                                raise Unsupported("mutable references are kept from one iteration to the next")
                            keep, self.st = self.st, s
                            b = self.snap(b)
                            self.st = keep
                            self.setp(s.store, c, path, b)
                            if a is not None and any(True for _ in refs_in(a)):
                                s0 = State(dict(s0.store), s0.guard, s0.dead)
                                keep, self.st = self.st, s0
                                self.setp(s0.store, c, path, self.snap(self.getp(s0.store[c], path)))
                                self.st = keep
                                new = True
                                break
                            if key(a) == key(b):
                                continue
                        if a is not None and is_refs(a) and is_refs(b):
                            if k in moving:
                                raise Unsupported("a reference that moves from one iteration to the next is not followed")
                            if s is end and s0 is not None:
                                s0 = State(dict(s0.store), s0.guard, s0.dead)
                            self.ncell += 1
                            keep, self.st = self.st, s0
                            s0.store[self.ncell] = self.read(self.deref_place(a))
                            self.st = keep
                            moving[k] = self.ncell
                            self.shared.add(self.ncell)
                            self.setp(s0.store, c, path, mk_leaf(Ref(self.ncell)))
                            new = True
                            break
                        if isinstance(a, Struct) and isinstance(b, Iter):
                            # a range stepped by hand: its state is a position
                            from .models import as_iter
                            x = as_iter(self, a)
                            if x is not None:
                                s0 = State(dict(s0.store), s0.guard, s0.dead)
                                self.setp(s0.store, c, path, x)
                                new = True
                                break
                        if k in hav:
                            # maybe the shape widened (new enum variants / sequences)
                            X = hav[k][1]
                            X2 = self.widen(hav[k][0], X, b, L, k)
                            if X2 is not None:
                                hav[k] = (hav[k][0], X2)
                                new = True
                            continue
                        # drop finer-grained entries below this path
                        for k2 in [k2 for k2 in hav if k2[0] == c and k2[1][:len(path)] == path]:
                            del hav[k2]
                        x0 = self.getp(s0.store[c], path) if s0.store[c] is not None else None
                        base = mk_atom("loopvar", (L, c, path) + tail, False, tail_key((L, c, path) + tail), meta={"show": "loop%d.%s%s" % (
                            L, self.cell_name(c), "".join("." + str(q) for q in path))})
                        X = self.havoc_join(x0, b, base)
                        hav[k] = (x0, X)
                        new = True
            if not new:
                break
        # ---- classification
        info = {"n": n, "index": ib, "rec": {}, "exits": [], "site": self.site(e), "fn": fr.fn,
                "cells": {}, "indexed": {}, "parent": tuple(self.loopstack), "tail": tail,
                "range": n is not None}  # range: every iteration's index lies below n
        self.loopinfo[L] = info
        cf = {}  # key -> value as a function of I
        fin = {}
        unres = dict(hav)
        step = {}
        if not end.dead:
            for k in hav:
                step[k] = self.getp(end.store[k[0]], k[1])
        hatoms = {k: self.base_atoms(X) for k, (x0, X) in hav.items()}
        subst_map = {}
        progress = True
        # a growing sequence whose next element depends on its last one: the last element is a value of its own
        for k, (x0, X) in hav.items():
            f = step.get(k)
            if isinstance(f, Cat) and isinstance(X, OSeq) and isinstance(f.parts[0], OSeq) and f.parts[0].atom is X.atom \
                    and len(f.parts) == 2 and isinstance(f.parts[1], Lst) and len(f.parts[1].items) == 1:
                r = self.last_elem(X, x0, f.parts[1].items[0], I, (L, k[0], k[1] + ("last",)) + tail)
                if r is not None:
                    g, Y = r
                    step[k] = Cat([f.parts[0], Lst([g])])
                    kl = (k[0], k[1] + ("last",))
                    step[kl], unres[kl], hatoms[kl] = g, (None, Y), self.base_atoms(Y)
        while progress and not end.dead:
            progress = False
            for k in list(unres):
                x0, X = unres[k]
                f = step[k]
                f = self.sub_hav(f, subst_map)
                others = [a for k2 in unres for a in hatoms[k2]]
                self.entry_guard, self.end_guard = s0.guard, end.guard
                r = self.classify(L, I, ib, k, x0, X, f, hatoms[k], others)
                if r is None:
                    continue
                cfun, ffun = r
                cf[k] = cfun
                fin[k] = ffun
                for hv, val in self.hav_pairs(X, cfun):
                    subst_map[hv] = val
                del unres[k]
                progress = True
            if progress or not unres:
                continue
            # collected sequences whose elements mention a loop-carried value without closed form:
            # that value becomes an uninterpreted function of the iteration index
            for k in list(unres):
                x0, X = unres[k]
                f = self.sub_hav(step[k], subst_map)
                if not (isinstance(f, Cat) and isinstance(X, OSeq)):
                    continue
                m = {}
                for k2 in unres:
                    if k2 == k:
                        continue
                    for a in hatoms[k2]:
                        m[a] = mk_atom("loopat", tuple(ATOMS[a].args) + (I,),
                                       keyargs=tail_key(tuple(ATOMS[a].args) + (I,)))
                if not m:
                    continue
                info["indexed"].update({a: (r, k2) for k2 in unres if k2 != k for a in hatoms[k2] for r in [m[a]]})
                r = self.classify(L, I, ib, k, x0, X, vsubst(f, m), hatoms[k], hatoms[k])
                if r is None:
                    continue
                cf[k], fin[k] = r
                for hv, val in self.hav_pairs(X, r[0]):
                    subst_map[hv] = val
                del unres[k]
                progress = True
                break
        for k, (x0, X) in hav.items():
            info["rec"][k] = (x0, X, step.get(k), cf.get(k))
            info["cells"][k] = X
        # ---- substitute closed forms everywhere
        sm = subst_map

        def fixv(v, at=None):
            v = self.sub_hav(v, sm)
            if at is not None:
                v = vsubst(v, {ib.id: at}) if v is not None else v
            return v

        def fixstate(s, at=None):
            return State({c: (fixv(v, at) if v is not None else None) for c, v in s.store.items()},
                         fixv(s.guard, at), s.dead)

        info["end"] = FALSE if end.dead else fixv(end.guard)
        if sm:
            for q, i in self.loopinfo.items():
                if L in i["parent"]:
                    i["end"] = fixv(i["end"])
                    if q in getattr(self, "odeloops", {}):
                        self.odeloops[q] = fixv(self.odeloops[q])
                    i["exits"] = [(State(s.store, fixv(s.guard), s.dead), fixv(v), w) for s, v, w in i["exits"]]
        for evn in self.events[ev0:]:
            for kk in list(evn):
                if kk in ("guard", "cond", "args", "index", "len", "a", "b", "dy", "t", "y", "result", "out"):
                    evn[kk] = fixv(evn[kk])
        breaks = [(fixstate(s), fixv(v)) for s, v in lab["breaks"] if not s.dead]
        rets = [(fixstate(s), fixv(v)) for s, v in rets if not s.dead]
        # ---- trip count of counted while-loops
        counted = n
        brk_state = ret_state = None
        if n is None:
            # the exit taken when the count is exhausted: its condition depends on the iteration index alone
            for q in breaks + rets:
                tc = self.trip_count(q[0].guard, s0.guard, ib)
                if tc is None:
                    continue
                counted = info["n"] = tc
                if any(q is x for x in breaks):
                    brk_state = q
                    breaks = [x for x in breaks if x is not q]
                else:
                    ret_state = q
                    rets = [x for x in rets if x is not q]
                break
            if counted is None and not end.dead:
                info["bound"] = self.bound(info["end"], s0.guard, ib)
        if counted is not None:
            N = counted
            if not end.dead or True:
                st = dict(s0.store)
                for k, (x0, X) in hav.items():
                    if k in fin:
                        self.setp(st, k[0], k[1], fin[k](N))
                    else:
                        base = mk_atom("loopout", (L,) + k + tail, False, tail_key((L,) + k + tail))
                        self.setp(st, k[0], k[1], self.havoc_like(X, base))
            pend = rets + breaks
            normal_guard = s0.guard
            names = tuple("exit:%d:%d" % (L, q) for q in range(len(pend)))
            if pend:
                grp = cond_group(names, (L,) + tail, tail_key((L,) + tail))
                for gq, (s, v) in zip(grp, pend):
                    a = mk_node(gq.id, TRUE, FALSE)
                    normal_guard = band(normal_guard, bnot(a))
                    s.guard = band(band(s.guard, s0.guard), a)
                    s.dead = s.guard is FALSE
                info["exits"] = [(s, v, "return" if q < len(rets) else "break") for q, (s, v) in enumerate(pend)]
            fr.returns += [(s, v) for s, v in pend[:len(rets)] if not s.dead]
            self.st = State(st, normal_guard, normal_guard is FALSE)
            val = UNIT
            if brk_state or ret_state:
                bs, bv = brk_state or ret_state
                bst = {}
                for c in s0.store:
                    if c in bs.store and bs.store[c] is not None:
                        bst[c] = vsubst(bs.store[c], {ib.id: N})
                    elif c in bs.store:
                        bst[c] = bs.store[c]
                # guards of temporaries: keep only pre-existing cells
                for c, v in bst.items():
                    if not any((c == k[0] and k not in fin) for k in hav):
                        self.st.store[c] = v
                val = vsubst(bv, {ib.id: N}) if bv is not None else UNIT
                if ret_state:
                    if not self.st.dead:
                        fr.returns.append((self.st, val))
                    self.st, val = State(dict(self.st.store), FALSE, True), UNIT
            if want_yield:
                yv = fixv(self.pre_freeze(y)) if not end.dead else UNIT
                val = want_yield(Comp(counted, ib, yv))
            if breaks:
                bx = [(s, v) for s, v in pend[len(rets):] if not s.dead]
                self.st, val = self.join_exits(bx + [(self.st, val)])
            return val
        # ---- unbounded loop: every exit at a generic iteration
        pend = rets + breaks
        if pend:
            names = tuple("exit:%d:%d" % (L, q) for q in range(len(pend)))
            grp = cond_group(names, (L,) + tail, tail_key((L,) + tail))
            for gq, (s, v) in zip(grp, pend):
                a = mk_node(gq.id, TRUE, FALSE)
                s.guard = band(band(s.guard, s0.guard), a)
                s.dead = s.guard is FALSE
            info["exits"] = [(s, v, "return" if q < len(rets) else "break") for q, (s, v) in enumerate(pend)]
            fr.returns += [(s, v) for s, v in pend[:len(rets)] if not s.dead]
            self.st, val = self.join_exits(pend[len(rets):])
            return val
        self.die()
        return UNIT

    def pre_freeze(self, v):
        return v

    def cell_name(self, c):
        for fr in self.frames:
            for v, cc in fr.vars.items():
                if cc == c:
                    return v
        return "c%d" % c

    def havoc_join(self, x0, b, base):
        """havoc value able to represent both x0 and b"""
        proto = b if x0 is None else x0
        if x0 is not None and b is not None:
            try:
                if isinstance(x0, DD) and isinstance(b, DD) and not is_num(x0) and not is_bool(x0):
                    ls = [l for _, l in leaves(x0)] + [l for _, l in leaves(b)]
                    if all(isinstance(l, Enum) for l in ls):
                        return self.havoc_enum(ls, base, "")
                if isinstance(x0, Seq) and isinstance(b, Seq):
                    proto = self.seq_proto(x0)
                    if proto is None:
                        proto = self.seq_proto(b)
                    a = app_atom("hv", (base, ""))
                    return OSeq(a, lambda at, i, proto=proto: self.havoc_elem(proto, at, i))
            except Unsupported:
                pass
        return self.havoc_like(proto, base)

    def widen(self, x0, X, b, L, k):
        """recompute the havoc value when a new iteration shows unseen variants"""
        if isinstance(X, DD) and isinstance(b, DD) and not is_num(X) and not is_bool(X):
            seen = {l.variant for _, l in leaves(X) if isinstance(l, Enum)}
            now = {l.variant for _, l in leaves(b) if isinstance(l, Enum)}
            if now - seen:
                tail = (len(now | seen),) + tuple(num_atom(self.its[q]) for q in self.loopstack)
                base = mk_atom("loopvar", (L, k[0], k[1]) + tail, False, tail_key((L, k[0], k[1]) + tail))
                ls = [l for _, l in leaves(X)] + [l for _, l in leaves(b)]
                return self.havoc_enum(ls, base, "")
        return None

    def last_elem(self, X, x0, g, I, args):
        """(g, Y): element g of iteration I with the last element of the sequence so far written as Y"""
        n = X.length()
        lenX = app_atom("len", (X.atom,), True)
        if not (atoms_of(g) & {X.atom.id}) or x0 is None:
            return None
        try:
            e = X.elem(sub(n, ONE))
            Y = self.havoc_like(e, mk_atom("loopvar", args, False, tail_key(args)))
        except Unsupported:
            return None
        o1, o2 = {}, {}
        self.leafmap(e, (), o1)
        self.leafmap(Y, (), o2)
        m = {}
        for p, x in o1.items():
            y = o2.get(p)
            if not (isinstance(x, DD) and x.var is None and isinstance(x.leaf, Rat) and isinstance(y, DD)):
                return None
            (mm, c), = x.leaf.num.items()
            m[mm[0][0]] = y
        g = vsubst(g, m)
        g = vsubst(g, {lenX.id: add(x0.length(), I)})
        if X.atom.id in atoms_of(g):
            return None
        return g, Y

    def base_atoms(self, X):
        """ids of the atoms that identify a havoc value"""
        s = set()
        for a in atoms_of(X):
            if ATOMS[a].kind == "loopvar":
                s.add(a)
        return s

    def hav_pairs(self, X, cfun):
        """(havoc atom id -> replacement) pairs"""
        out = []
        if isinstance(X, DD) and X.var is None and isinstance(X.leaf, Rat):
            (m, c), = X.leaf.num.items()
            out.append((("n", m[0][0]), cfun))
        elif isinstance(X, DD) and is_bool(X):
            out.append((("b", X.var), cfun))
        elif isinstance(X, OSeq):
            out.append((("s", X.atom.id), cfun))
        elif isinstance(X, Iter):
            (m, c), = X.pos.leaf.num.items()
            out.append((("n", m[0][0]), cfun.pos))
        elif isinstance(X, DD):
            out.append((("e", X), cfun))
        elif isinstance(X, Mat):
            for ij, x in X.ent.items():
                out += self.hav_pairs(x, cfun.get(*ij))
        return out

    def sub_hav(self, v, sm):
        if not sm or v is None:
            return v
        m = {}
        conds = {}
        for (k, x), val in sm.items():
            if k == "n":
                m[x] = val
            elif k == "s":
                m[x] = val
            elif k == "b":
                conds[x] = val
            elif k == "e":
                self._enum_sub(x, val, m, conds)
        if m:
            v = vsubst(v, m)
        if conds:
            v = csubst(v, conds)
        return v

    def _enum_sub(self, X, val, m, conds):
        """replace the variant tests and payload atoms of an opaque enum havoc by those of val"""
        for g, l in leaves(X):
            if not isinstance(l, Enum):
                continue
            for f, x in l.fields.items():
                nv = self.variant_field(val, l.variant, f)
                if nv is None:
                    continue
                o1, o2 = {}, {}
                self.leafmap(x, (), o1)
                self.leafmap(nv, (), o2)
                for p, xx in o1.items():
                    if p in o2:
                        for (kk, aid), r in self.hav_pairs_like(xx, o2[p]):
                            if kk in ("n", "s"):
                                m[aid] = r
                            elif kk == "b":
                                conds[aid] = r
        st = [X]
        while st:
            nd = st.pop()
            if nd.var is None:
                continue
            c = CONDS[nd.var]
            if c.kind.startswith("is:") and nd.var not in conds:
                conds[nd.var] = self.is_variant(val, c.kind[3:])
            st += [nd.hi, nd.lo]

    def hav_pairs_like(self, X, val):
        try:
            return self.hav_pairs(X, val)
        except (AttributeError, ValueError):
            return []

    def same_now(self, a, b):
        """the same value on every path that reaches the current point"""
        if isinstance(a, DD) and isinstance(b, DD) and self.entry_guard is not TRUE:
            try:
                return key(restrict(a, self.entry_guard)) == key(restrict(b, self.entry_guard))
            except Unsupported:
                return False
        return False

    def classify(self, L, I, ib, k, x0, X, f, own, others):
        """closed form of a loop variable: (value at iteration I, fn N -> value after N)"""
        if f is None:
            return None
        fa = atoms_of(f)
        oth = set(others)
        if isinstance(f, DD) and isinstance(X, DD) and f is X:
            return x0, (lambda N: x0)
        if not (fa & oth):
            # f(i) does not depend on loop variables: value of the previous iteration
            if x0 is not None and key(f) == key(x0) and ib.id not in fa:
                return x0, (lambda N: x0)
            prev = vsubst(f, {ib.id: sub(I, ONE)})
            if x0 is None:
                return prev, (lambda N: vsubst(f, {ib.id: sub(N, ONE)}))
            at0 = vsubst(f, {ib.id: num(-1)})
            if key(at0) == key(x0) or self.same_now(at0, x0):
                return prev, (lambda N: vsubst(f, {ib.id: sub(N, ONE)}))
            cur = vite(eq(I, ZERO), x0, prev)

            def final(N):
                return vite(eq(N, ZERO), x0, vsubst(f, {ib.id: sub(N, ONE)}))

            return cur, final
        if isinstance(f, DD) and is_num(f) and isinstance(X, DD):
            g = sub(f, X)
            ga = atoms_of(g)
            if not (ga & oth):
                nb = fresh_bound("k")
                gb = vsubst(g, {ib.id: num_atom(nb)})
                return add(x0, mk_sum(I, nb, gb)), (lambda N: add(x0, mk_sum(N, nb, gb)))
            mm = self.minmax(f, X, oth)
            if mm:
                kind, g = mm
                nb = fresh_bound("k")
                gb = vsubst(g, {ib.id: num_atom(nb)})

                def over(N):
                    if N is ZERO:
                        return x0
                    return dmap(lambda r: combine_over(kind, mk_leaf(r), N, nb, gb), x0)

                return vite(eq(I, ZERO), x0, over(I)), (lambda N: over(N))
        if isinstance(f, Seq) and isinstance(X, OSeq):
            parts = f.parts if isinstance(f, Cat) else [f]
            if parts and isinstance(parts[0], OSeq) and parts[0].atom is X.atom and len(parts) == 2 \
                    and isinstance(parts[1], Lst) and len(parts[1].items) == 1:
                g = parts[1].items[0]
                # X.len inside g is the index
                if atoms_of(g) & set(own):
                    lenX = app_atom("len", (X.atom,), True)
                    g = vsubst(g, {lenX.id: add(x0.length(), I)})
                if not (atoms_of(g) & oth):
                    nb = fresh_bound("k")
                    gb = vsubst(g, {ib.id: num_atom(nb)})
                    return (mk_cat([x0, Comp(I, nb, gb)]),
                            lambda N: mk_cat([x0, Comp(N, nb, gb)]))
            if isinstance(f, Upd) and isinstance(f.base, OSeq) and f.base.atom is X.atom:
                if f.i is I:
                    g = f.v
                    if atoms_of(g) & set(own):
                        # x[i] read before being written in iteration i
                        at = self._elem_atoms(X, I)
                        g = self._sub_elem(g, X, I, x0)
                    if not (atoms_of(g) & oth):
                        nb = fresh_bound("k")
                        gb = vsubst(g, {ib.id: num_atom(nb)})

                        def fin(N):
                            if N is x0.length():
                                return Comp(N, nb, gb)
                            return UpdN(x0, N, nb, gb)
                        return UpdN(x0, I, nb, gb), fin
        if isinstance(f, Iter) and isinstance(X, Iter) and f.st is X.st:
            g = sub(f.pos, X.pos)
            if g.var is not None:
                g = restrict(g, self.end_guard)  # on the paths that go on to another iteration
            if not (atoms_of(g) & oth) and ib.id not in atoms_of(g):
                return Iter(f.st, add(x0.pos, mul(I, g))), (lambda N: Iter(f.st, add(x0.pos, mul(N, g))))
        return None

    def _elem_atoms(self, X, I):
        return None

    def _sub_elem(self, g, X, I, x0):
        e = X.elem(I)
        o1, o2 = {}, {}
        self.leafmap(e, (), o1)
        y = x0.elem(I)
        if y is None:
            return g
        self.leafmap(y, (), o2)
        m = {}
        for p, x in o1.items():
            if p in o2 and isinstance(x, DD) and x.var is None and isinstance(x.leaf, Rat):
                (mm, c), = x.leaf.num.items()
                m[mm[0][0]] = o2[p]
        return vsubst(g, m)

    def minmax(self, f, X, oth):
        """f = max(X, g) or min(X, g)?"""
        if f.var is None:
            if isinstance(f.leaf, Rat) and len(f.leaf.num) == 1 and f.leaf.den == T.ONE_P:
                (m, c), = f.leaf.num.items()
                if c == 1 and len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].kind in ("max", "min"):
                    a = ATOMS[m[0][0]]
                    for x, g in (a.args, a.args[::-1]):
                        if x is X and not (atoms_of(g) & oth):
                            return ("maxover" if a.kind == "max" else "minover"), g
            return None
        ls = [l for _, l in leaves(f)]
        xs = [mk_leaf(l) for l in ls]
        if len(xs) != 2 or X not in xs:
            return None
        g = xs[0] if xs[1] is X else xs[1]
        if atoms_of(g) & oth:
            return None
        # condition under which g is chosen
        c = dmap(lambda l: bconst(mk_leaf(l) is g), f)
        same = lambda p: band(c, bnot(p)) is FALSE and band(p, bnot(c)) is FALSE
        for kind, strict, weak in (("maxover", gt(g, X), ge(g, X)), ("minover", lt(g, X), le(g, X))):
            # with the variants that hold when neither is smaller (NaN): !(g <= X), !(g < X)
            other = (lt(g, X), le(g, X)) if kind == "maxover" else (gt(g, X), ge(g, X))
            if same(strict) or same(weak) or any(same(bnot(p)) for p in other):
                return kind, g
        return None

    def bound(self, endg, g0, ib):
        """largest number of iterations that can be started: from some index on, the body is not left for another
        iteration, whatever else it finds"""
        c = restrict(endg, g0)
        vs = self.dd_vars(c)
        for grp in {id(CONDS[v].group): CONDS[v].group for v in vs if CONDS[v].kind in ("neg", "zero", "pos") and
                    ib.id in atoms_of(CONDS[v].args[0])}.values():
            d = c
            for v in sorted(vs):
                if CONDS[v].group is not grp:
                    d = bor(assume(d, v, True), assume(d, v, False))
            k = self.trip_count(bnot(d), g0, ib)
            if k is not None:
                return add(k, ONE)
        return None

    def trip_count(self, exitg, g0, ib):
        """exit condition as a function of the iteration index -> number of completed iterations"""
        c = restrict(exitg, g0)
        if c.var is None:
            return None
        cond = CONDS[c.var]
        if cond.kind not in ("neg", "zero"):
            return None
        if not all(CONDS[x].group is cond.group for x in self.dd_vars(c)):
            return None
        d = cond.args[0]
        r = leaf_rat(d)
        if r.den != T.ONE_P:
            return None
        co = None
        for m, k in r.num.items():
            for x, ex in m:
                if x == ib.id:
                    if len(m) != 1 or ex != 1:
                        return None
                    co = k
                elif ib.id in atom_atoms(ATOMS[x]):
                    return None
        if co is None or abs(co) != 1:
            # canonical scaling keeps integer coefficients when |lead| is 1
            return None
        rest = sub(d, mul(num(co), num_atom(ib)))  # d = co*i + rest
        isneg = lambda v: assume(assume(c, cond.group[0].id, v == "neg"), cond.group[1].id, v == "zero") is TRUE
        exn, exz = isneg("neg"), isneg("zero")
        exp_ = assume(assume(c, cond.group[0].id, False), cond.group[1].id, False) is TRUE
        root = neg(rest) if co == 1 else rest  # i where d == 0
        if co == 1:
            # d increases with i: starts negative
            if not exn and exz:
                return root
            if not exn and not exz and exp_:
                return add(root, ONE)
        else:
            if not exp_ and exz:
                return root
            if not exp_ and not exz and exn:
                return add(root, ONE)
        return None

    def dd_vars(self, d):
        s = set()
        st = [d]
        while st:
            n = st.pop()
            if n.var is None:
                continue
            s.add(n.var)
            st += [n.hi, n.lo]
        return s


def tail_key(args):
    return tuple(key(x) for x in args)


class PyFn(Leafy):
    """a callable supplied by a rule"""
    __slots__ = ("f", "name")

    def __init__(self, f, name):
        self.f = f
        self.name = name

    def vkey(self):
        return ("P", self.name)

    def __repr__(self):
        return self.name


class UpdN(Seq):
    """base with elements 0..n replaced by body(b)"""

    def __init__(self, base, n, b, body):
        self.base, self.n, self.b, self.body = base, n, b, body

    def length(self):
        return self.base.length()

    def elem(self, i):
        return vite(lt(i, self.n), vsubst(self.body, {self.b.id: i}), self.base.elem(i))

    def skey(self):
        return ("updn", key(self.base), key(Comp(self.n, self.b, self.body)))

    def parts_(self):
        return [self.base, Comp(self.n, self.b, self.body)]

    def subst_(self, sub):
        c = sub.v(Comp(self.n, self.b, self.body))
        return UpdN(sub.v(self.base), c.n, c.b, c.body)


def csubst(v, conds):
    """substitute condition atoms (by id) with DD booleans"""
    memo = {}

    def dd(d):
        if d.var is None:
            l = d.leaf
            if isinstance(l, Enum):
                return mk_leaf(Enum(l.adt, l.variant, {k: go(x) for k, x in l.fields.items()}))
            return d
        r = memo.get(d.id)
        if r is None:
            c = conds.get(d.var)
            if c is None:
                c = mk_node(d.var, TRUE, FALSE)
            r = vite(c, dd(d.hi), dd(d.lo))
            memo[d.id] = r
        return r

    def go(x):
        if isinstance(x, DD):
            return dd(x)
        if isinstance(x, Struct):
            return Struct(x.adt, {k: go(y) for k, y in x.fields.items()})
        if isinstance(x, Tup):
            return Tup([go(y) for y in x.items])
        if isinstance(x, Lst):
            return Lst([go(y) for y in x.items])
        if isinstance(x, Comp):
            return Comp(go(x.n), x.b, go(x.body))
        if isinstance(x, Cat):
            return mk_cat([go(y) for y in x.parts])
        if isinstance(x, (list, tuple)):
            return type(x)(go(y) for y in x)
        return x

    return go(v)


def mut_ref(p, t, seen=()):
    """does a type hold a mutable reference"""
    if isinstance(t, (tuple, list)):
        if len(t) >= 3 and t[0] == "ref" and t[2]:
            return True
        return any(mut_ref(p, x) for x in t)
    return False


def is_refs(v):
    if not isinstance(v, DD) or is_num(v) or is_bool(v):
        return False
    ls = leaves(v)
    return bool(ls) and all(isinstance(l, Ref) for _, l in ls)


def refs_in(v, path=()):
    """(path, cell) of the references inside a value"""
    if isinstance(v, DD):
        if v.var is None and isinstance(v.leaf, Rat):
            return
        if is_num(v) or is_bool(v):
            return
        for _, l in leaves(v):
            if isinstance(l, Ref):
                yield path, l.cell
            elif isinstance(l, Boxed):
                yield from refs_in(l.v, path + ("*",))
            elif isinstance(l, Enum):
                for k, x in l.fields.items():
                    yield from refs_in(x, path + (l.variant, k))
    elif isinstance(v, Struct):
        for k, x in v.fields.items():
            yield from refs_in(x, path + (k,))
    elif isinstance(v, Tup):
        for k, x in enumerate(v.items):
            yield from refs_in(x, path + (str(k),))
    elif isinstance(v, Lst):
        for k, x in enumerate(v.items):
            yield from refs_in(x, path + (str(k),))
    elif isinstance(v, Cat):
        for x in v.parts:
            yield from refs_in(x, path + ("?",))
    elif isinstance(v, Comp):
        yield from refs_in(v.body, path + ("?",))
