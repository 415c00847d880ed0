"""Non-scalar abstract values, keys, substitution and joins."""
from .term import *
from . import term as T


class Val:
    pass


def app_atom(kind, args=(), integer=False, meta=None):
    return mk_atom(kind, args, integer, tuple(key(x) for x in args), meta)


class Struct(Val):
    __slots__ = ("adt", "fields")

    def __init__(self, adt, fields):
        self.adt = adt
        self.fields = fields

    def __repr__(self):
        return "{%s}" % ", ".join("%s: %r" % kv for kv in self.fields.items())


class Tup(Val):
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = list(items)

    def __repr__(self):
        return "(%s)" % ", ".join(map(repr, self.items))


UNIT = Tup([])


class Leafy(Val):
    """values that live as DD leaves"""


class Enum(Leafy):
    __slots__ = ("adt", "variant", "fields")

    def __init__(self, adt, variant, fields):
        self.adt = adt
        self.variant = variant
        self.fields = fields

    def vkey(self):
        return ("E", self.adt, self.variant) + tuple((k, key(v)) for k, v in self.fields.items())

    def __repr__(self):
        if not self.fields:
            return self.variant
        return "%s(%s)" % (self.variant, ", ".join(repr(v) for v in self.fields.values()))


class Opq(Leafy):
    """an opaque (unmodelled) value identified by an atom"""
    __slots__ = ("atom", "ty")

    def __init__(self, atom, ty):
        self.atom = atom
        self.ty = ty

    def vkey(self):
        return ("O", self.atom.id)

    def __repr__(self):
        return repr(self.atom)


class Ref(Leafy):
    __slots__ = ("cell", "path")

    def __init__(self, cell, path=()):
        self.cell = cell
        self.path = path

    def vkey(self):
        return ("R", self.cell, tuple(p if isinstance(p, str) else (p[0],) + tuple(
            x.id if isinstance(x, DD) else x for x in p[1:]) for p in self.path))

    def __repr__(self):
        return "&c%s%s" % (self.cell, "".join("." + str(p) for p in self.path))


class Clo(Leafy):
    """closure: env maps captured variable -> value (by value) or Ref (by reference, flagged)"""
    __slots__ = ("body", "env", "subst", "byref")

    def __init__(self, body, env, byref, subst):
        self.body = body
        self.env = env
        self.byref = byref
        self.subst = subst

    def vkey(self):
        return ("C", self.body) + tuple((k, key(v)) for k, v in sorted(self.env.items()))

    def __repr__(self):
        return "closure@%s" % self.body


class FnV(Leafy):
    __slots__ = ("d", "ga")

    def __init__(self, d, ga):
        self.d = d
        self.ga = ga

    def vkey(self):
        return ("F", self.d, self.ga)

    def __repr__(self):
        return "fn@%s" % self.d


class StrV(Leafy):
    __slots__ = ("s",)

    def __init__(self, s):
        self.s = s

    def vkey(self):
        return ("S", self.s)

    def __repr__(self):
        return '"%s"' % self.s


# ---------------------------------------------------------------- sequences
class Seq(Val):
    pass


class Lst(Seq):
    def __init__(self, items):
        self.items = list(items)

    def length(self):
        return num(len(self.items))

    def elem(self, i):
        if i.var is None and i.leaf.is_const():
            k = i.leaf.const()
            if k.denominator == 1 and 0 <= k < len(self.items):
                return self.items[int(k)]
            return None
        if not self.items:
            return None
        r = self.items[-1]
        for k in range(len(self.items) - 2, -1, -1):
            r = vite(eq(i, num(k)), self.items[k], r)
        return r

    def __repr__(self):
        return "[%s]" % ", ".join(map(repr, self.items))


class Comp(Seq):
    """[body(b) for b in 0..n], b a bound symbol"""

    def __init__(self, n, b, body):
        self.n = n
        self.b = b  # Atom
        self.body = body

    def length(self):
        return self.n

    def elem(self, i):
        return vsubst(self.body, {self.b.id: i})

    def __repr__(self):
        return "[%r for %r<%r]" % (self.body, self.b, self.n)


class OSeq(Seq):
    """opaque sequence: elements are projections of an atom"""

    def __init__(self, atom, mk, n=None, ty=None):
        self.atom = atom
        self.mk = mk  # index DD -> value
        self.n = n
        self.ty = ty

    def length(self):
        if self.n is not None:
            return self.n
        return num_atom(app_atom("len", (self.atom,), True))

    def elem(self, i):
        return self.mk(self.atom, i)

    def __repr__(self):
        return "%r[..]" % self.atom


class Cat(Seq):
    def __init__(self, parts):
        ps = []
        for p in parts:
            if isinstance(p, Cat):
                ps += p.parts
            elif isinstance(p, Lst) and ps and isinstance(ps[-1], Lst):
                ps[-1] = Lst(ps[-1].items + p.items)
            elif isinstance(p, Lst) and not p.items:
                continue
            else:
                ps.append(p)
        self.parts = ps

    def length(self):
        return total(p.length() for p in self.parts)

    def elem(self, i):
        off = ZERO
        out = []
        for p in self.parts:
            j = sub(i, off)
            nxt = add(off, p.length())
            out.append((lt(i, nxt), p.elem(j) if not (isinstance(p, Lst) and not p.items) else None))
            off = nxt
        r = out[-1][1]
        for c, v in reversed(out[:-1]):
            if v is None:
                continue
            if c is TRUE:
                r = v
            elif c is not FALSE:
                r = vite(c, v, r) if r is not None else v
        return r

    def __repr__(self):
        return " ++ ".join(map(repr, self.parts)) or "[]"


def mk_cat(parts):
    c = Cat(parts)
    if not c.parts:
        return Lst([])
    if len(c.parts) == 1:
        return c.parts[0]
    return c


class Upd(Seq):
    """sequence with one element replaced"""

    def __init__(self, base, i, v):
        self.base = base
        self.i = i
        self.v = v

    def length(self):
        return self.base.length()

    def elem(self, i):
        e = eq(i, self.i)
        if e is TRUE:
            return self.v
        b = self.base.elem(i)
        if e is FALSE:
            return b
        return vite(e, self.v, b)

    def __repr__(self):
        return "%r[%r:=%r]" % (self.base, self.i, self.v)


class IteSeq(Seq):
    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def length(self):
        return ite(self.c, self.a.length(), self.b.length())

    def elem(self, i):
        return vite(self.c, self.a.elem(i), self.b.elem(i))

    def __repr__(self):
        return "{%r ? %r : %r}" % (self.c, self.a, self.b)


class Mat(Val):
    """small dense matrix with concrete indices"""

    def __init__(self, rows, cols, ent, default):
        self.rows, self.cols = rows, cols
        self.ent = ent
        self.default = default

    def get(self, i, j):
        return self.ent.get((i, j), self.default)

    def length(self):
        return num(self.rows * self.cols)

    def elem(self, i):
        """element i in storage (column-major) order"""
        c = i.leaf if isinstance(i, DD) and i.var is None else None
        if isinstance(c, Rat) and c.is_const() and c.const().denominator == 1:
            k = int(c.const())
            if 0 <= k < self.rows * self.cols:
                return self.get(k % self.rows, k // self.rows)
        return None

    def __repr__(self):
        return "Mat%dx%d{%s}" % (
            self.rows, self.cols,
            ", ".join("%s:%r" % kv for kv in sorted(self.ent.items()) if kv[1] is not ZERO))


# ---------------------------------------------------------------- bound symbols
_canon = {}


def canon_bound(d):
    if d not in _canon:
        _canon[d] = mk_atom("bound", (d,), True)
    return _canon[d]


_depth_memo = {}


def bdepth(x):
    """1 + max canonical bound index occurring in x"""
    m = 0
    for a in atoms_of(x):
        if ATOMS[a].kind == "bound":
            m = max(m, ATOMS[a].args[0] + 1)
    return m


def fresh_bound(name="i"):
    return mk_atom("idx", (fresh_name(name),), True)


# ---------------------------------------------------------------- keys
def key(v):
    if isinstance(v, DD):
        if v.var is not None and not is_num(v) and not is_bool(v):
            return ekey(v)
        return ("d", v.id)
    if isinstance(v, Struct):
        return ("s", v.adt) + tuple((k, key(x)) for k, x in sorted(v.fields.items()))
    if isinstance(v, Tup):
        return ("t",) + tuple(key(x) for x in v.items)
    if isinstance(v, Lst):
        return ("l",) + tuple(key(x) for x in v.items)
    if isinstance(v, Comp):
        c = canon_comp(v)
        return ("c", c.n.id, key(c.body), c.b.id)
    if isinstance(v, OSeq):
        return ("o", v.atom.id, v.length().id)
    if isinstance(v, Cat):
        return ("cat",) + tuple(key(x) for x in v.parts)
    if isinstance(v, Upd):
        return ("upd", key(v.base), v.i.id, key(v.v))
    if isinstance(v, IteSeq):
        return ("is", v.c.id, key(v.a), key(v.b))
    if isinstance(v, Mat):
        return ("m", v.rows, v.cols) + tuple(
            (v.get(i, j)).id for i in range(v.rows) for j in range(v.cols)
        )
    if isinstance(v, Atom):
        return ("a", v.id)
    if isinstance(v, (str, int, bool)) or v is None:
        return v
    if isinstance(v, tuple):
        return tuple(key(x) for x in v)
    if hasattr(v, "skey"):
        return v.skey()
    raise TypeError("key of %r" % type(v))


def ekey(d):
    """key of a non-scalar DD, grouping leaves by enum variant"""
    out = []
    byv = {}
    for g, l in leaves(d):
        if isinstance(l, Enum):
            byv.setdefault((l.adt, l.variant), []).append((g, l))
        else:
            out.append((g.id, ("d", mk_leaf(l).id)))
    for k, ls in byv.items():
        g = bany(x[0] for x in ls)
        fields = enum_fields(ls, g)
        out.append((g.id, ("E",) + k + tuple((f, key(x)) for f, x in sorted(fields.items()))))
    return ("e",) + tuple(sorted(out, key=repr))


def enum_fields(ls, care):
    """merged payload fields of same-variant leaves [(guard, Enum)]"""
    res = {}
    for f in ls[0][1].fields:
        v = ls[-1][1].fields[f]
        for g, l in reversed(ls[:-1]):
            v = vite(restrict(g, care), l.fields[f], v)
        res[f] = v
    return res


def canon_comp(v):
    if v.b.kind == "bound":
        return v
    b = canon_bound(bdepth((v.body, v.n)))
    return Comp(v.n, b, vsubst(v.body, {v.b.id: num_atom(b)}))


# ---------------------------------------------------------------- atoms occurring in a value
_atoms_memo = {}


def dd_atoms(d):
    r = _atoms_memo.get(d.id)
    if r is not None:
        return r
    s = set()
    if d.var is None:
        l = d.leaf
        if isinstance(l, Rat):
            for x in rat_atoms(l):
                s |= atom_atoms(ATOMS[x])
        elif l is True or l is False:
            pass
        else:
            s |= atoms_of(l)
    else:
        for a in CONDS[d.var].args:
            s |= atoms_of(a)
        s |= dd_atoms(d.hi) | dd_atoms(d.lo)
    r = frozenset(s)
    _atoms_memo[d.id] = r
    return r


_aa_memo = {}


def atom_atoms(a):
    r = _aa_memo.get(a.id)
    if r is None:
        s = {a.id}
        for x in a.args:
            s |= atoms_of(x)
        r = frozenset(s)
        _aa_memo[a.id] = r
    return r


def atoms_of(v):
    if isinstance(v, DD):
        return dd_atoms(v)
    if isinstance(v, Atom):
        return atom_atoms(v)
    if isinstance(v, Struct):
        it = v.fields.values()
    elif isinstance(v, Tup):
        it = v.items
    elif isinstance(v, Lst):
        it = v.items
    elif isinstance(v, Comp):
        return (atoms_of(v.body) | dd_atoms(v.n)) - {v.b.id}
    elif isinstance(v, OSeq):
        return atom_atoms(v.atom) | dd_atoms(v.length())
    elif isinstance(v, Cat):
        it = v.parts
    elif isinstance(v, Upd):
        it = (v.base, v.i, v.v)
    elif isinstance(v, IteSeq):
        it = (v.c, v.a, v.b)
    elif isinstance(v, Mat):
        it = list(v.ent.values()) + ([v.default] if v.default is not None else [])
    elif isinstance(v, Enum):
        it = v.fields.values()
    elif isinstance(v, Opq):
        return atom_atoms(v.atom)
    elif isinstance(v, Clo):
        it = v.env.values()
    elif isinstance(v, (list, tuple)):
        it = v
    elif hasattr(v, "parts_"):
        it = v.parts_()
    else:
        return frozenset()
    s = set()
    for x in it:
        s |= atoms_of(x)
    return frozenset(s)


def depends(v, ids):
    return bool(atoms_of(v) & set(ids))


# ---------------------------------------------------------------- substitution
REBUILD = {}


def vsubst(v, m):
    """substitute numeric atoms (by id) -> value (DD, or for opaque atoms any value)"""
    return _Sub(m).v(v)


class _Sub:
    def __init__(self, m):
        self.m = m
        self.ids = frozenset(m)
        self.memo = {}
        self.amemo = {}

    def hit(self, v):
        return bool(atoms_of(v) & self.ids)

    def v(self, v):
        if isinstance(v, DD):
            return self.dd(v)
        if v is None or isinstance(v, (str, int, bool)):
            return v
        if not self.hit(v):
            return v
        if isinstance(v, Struct):
            return Struct(v.adt, {k: self.v(x) for k, x in v.fields.items()})
        if isinstance(v, Tup):
            return Tup([self.v(x) for x in v.items])
        if isinstance(v, Lst):
            return Lst([self.v(x) for x in v.items])
        if isinstance(v, Comp):
            n = self.v(v.n)
            b, body = v.b, v.body
            # avoid capture
            if any(b.id in atoms_of(x) for x in self.m.values()):
                nb = fresh_bound("i")
                body = vsubst(body, {b.id: num_atom(nb)})
                b = nb
            m = self.m
            if b.id in m:
                m = {k: x for k, x in m.items() if k != b.id}
                return Comp(n, b, vsubst(body, m) if m else body)
            return Comp(n, b, self.v(body))
        if isinstance(v, OSeq):
            a = self.atom_obj(v.atom)
            n = self.v(v.n) if v.n is not None else None
            if isinstance(a, Seq):
                return a
            return OSeq(a, v.mk, n, v.ty)
        if isinstance(v, Cat):
            return mk_cat([self.v(p) for p in v.parts])
        if isinstance(v, Upd):
            return Upd(self.v(v.base), self.v(v.i), self.v(v.v))
        if isinstance(v, IteSeq):
            return seq_ite(self.v(v.c), self.v(v.a), self.v(v.b))
        if isinstance(v, Mat):
            return Mat(v.rows, v.cols, {k: self.v(x) for k, x in v.ent.items()},
                       self.v(v.default) if v.default is not None else None)
        if isinstance(v, Atom):
            a = self.atom_obj(v)
            return a
        if isinstance(v, tuple):
            return tuple(self.v(x) for x in v)
        if isinstance(v, list):
            return [self.v(x) for x in v]
        if isinstance(v, Leafy):
            return self.leafy(v)
        if hasattr(v, "subst_"):
            return v.subst_(self)
        return v

    def leafy(self, v):
        """-> DD"""
        if isinstance(v, Enum):
            return mk_leaf(Enum(v.adt, v.variant, {k: self.v(x) for k, x in v.fields.items()}))
        if isinstance(v, Opq):
            a = self.atom_obj(v.atom)
            if isinstance(a, Atom):
                return mk_leaf(Opq(a, v.ty))
            return a
        if isinstance(v, Clo):
            return mk_leaf(Clo(v.body, {k: self.v(x) for k, x in v.env.items()}, v.byref, v.subst))
        if isinstance(v, Ref):
            return mk_leaf(Ref(v.cell, tuple(
                p if isinstance(p, str) else (p[0],) + tuple(
                    self.v(x) if isinstance(x, DD) else x for x in p[1:]) for p in v.path)))
        return mk_leaf(v)

    def atom_obj(self, a):
        """substituted atom as an object (Atom, or arbitrary value when the atom is replaced)"""
        if a.id in self.m:
            r = self.m[a.id]
            if isinstance(r, DD) and r.var is None:
                if isinstance(r.leaf, Rat) and len(r.leaf.num) == 1 and r.leaf.den == T.ONE_P:
                    (mm, c), = r.leaf.num.items()
                    if c == 1 and len(mm) == 1 and mm[0][1] == 1:
                        return ATOMS[mm[0][0]]
                if isinstance(r.leaf, Opq):
                    return r.leaf.atom
            return r
        if not (atom_atoms(a) & self.ids):
            return a
        args = tuple(self.v(x) for x in a.args)
        return mk_atom(a.kind, args, a.integer, tuple(key(x) for x in args), None)

    def atom(self, a):
        """numeric value of substituted atom -> DD"""
        if a.id in self.m:
            return self.m[a.id]
        if not (atom_atoms(a) & self.ids):
            return num_atom(a)
        r = self.amemo.get(a.id)
        if r is None:
            args = tuple(self.v(x) for x in a.args)
            rb = REBUILD.get(a.kind)
            if rb:
                r = rb(a, args)
            else:
                r = num_atom(mk_atom(a.kind, args, a.integer, tuple(key(x) for x in args), None))
            self.amemo[a.id] = r
        return r

    def rat(self, r):
        n = self.poly(r.num)
        if r.den == T.ONE_P:
            return n
        return div(n, self.poly(r.den))

    def poly(self, p):
        acc = ZERO
        keep = {}
        for m, c in p.items():
            if not any(x in self.m or (atom_atoms(ATOMS[x]) & self.ids) for x, _ in m):
                keep[m] = c
                continue
            rest = tuple((x, e) for x, e in m
                         if not (x in self.m or (atom_atoms(ATOMS[x]) & self.ids)))
            t = mk_leaf(T._mk_red({rest: c}, T.ONE_P))
            for x, e in m:
                if x in self.m or (atom_atoms(ATOMS[x]) & self.ids):
                    t = mul(t, powi(self.atom(ATOMS[x]), e))
            acc = add(acc, t)
        if keep:
            acc = add(acc, mk_leaf(T._mk_red(keep, T.ONE_P)))
        return acc

    def dd(self, d):
        if not (dd_atoms(d) & self.ids):
            return d
        r = self.memo.get(d.id)
        if r is not None:
            return r
        if d.var is None:
            l = d.leaf
            if isinstance(l, Rat):
                r = self.rat(l)
            else:
                r = self.leafy(l)
        else:
            c = self.cond(CONDS[d.var])
            hi = self.dd(d.hi)
            lo = self.dd(d.lo)
            r = vite(c, hi, lo)
        self.memo[d.id] = r
        return r

    def cond(self, c):
        k = ("c", c.id)
        r = self.memo.get(k)
        if r is not None:
            return r
        if not any(self.hit(a) for a in c.args):
            r = mk_node(c.id, TRUE, FALSE)
        else:
            args = tuple(self.v(a) for a in c.args)
            r = rebuild_cond(c, args)
        self.memo[k] = r
        return r


def rebuild_cond(c, args):
    if c.kind == "neg":
        return lt(args[0], ZERO)
    if c.kind == "pos":
        return gt(args[0], ZERO)
    if c.kind == "zero":
        return eq(args[0], ZERO)
    if c.kind == "is_infinite":
        return is_infinite(args[0])
    if c.kind == "is_nan":
        return is_nan(args[0])
    kinds = tuple(x.kind for x in c.group)
    if len(c.group) > 1 or c.kind.startswith("is:"):
        # variant tests on a substituted enum value
        a = args[0]
        if isinstance(a, DD):
            v = c.kind[3:]
            return dmap(lambda l: bconst(l.variant == v) if isinstance(l, Enum) else mk_node(
                cond_group(kinds, (mk_leaf(l),), (key(mk_leaf(l)),))[c.pos].id, TRUE, FALSE), a)
        g = cond_group(kinds, args, tuple(key(x) for x in args))
        return mk_node(g[c.pos].id, TRUE, FALSE)
    if c.kind == "bool" and isinstance(args[0], DD) and is_bool(args[0]):
        return args[0]
    g = cond_group(kinds, args, tuple(key(x) for x in args))
    return mk_node(g[c.pos].id, TRUE, FALSE)


for _k, _f in (("sqrt", sqrt), ("sin", sin), ("cos", cos), ("exp", exp), ("ln", ln), ("abs", abs_)):
    REBUILD[_k] = (lambda f: lambda a, args: f(args[0]))(_f)
REBUILD["max"] = lambda a, args: max2(args[0], args[1])
REBUILD["min"] = lambda a, args: min2(args[0], args[1])


def _rb_len(a, args):
    x = args[0]
    if isinstance(x, Seq):
        return x.length()
    return num_atom(app_atom("len", (x,), True))


REBUILD["len"] = _rb_len


# ---------------------------------------------------------------- joins
def seq_ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b or key(a) == key(b):
        return a
    if isinstance(a, Lst) and isinstance(b, Lst) and len(a.items) == len(b.items):
        return Lst([vite(c, x, y) for x, y in zip(a.items, b.items)])
    return IteSeq(c, a, b)


class Boxed(Leafy):
    """a composite value wrapped as a DD leaf (joined with something of another shape)"""
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def vkey(self):
        return ("B", key(self.v))

    def __repr__(self):
        return repr(self.v)


def to_dd(v):
    if isinstance(v, DD):
        return v
    if isinstance(v, Leafy):
        return mk_leaf(v)
    return mk_leaf(Boxed(v))


def vite(c, a, b):
    if c is TRUE or a is b:
        return a
    if c is FALSE:
        return b
    if a is None:
        return b
    if b is None:
        return a
    if isinstance(a, DD) and isinstance(b, DD):
        return ite(c, a, b)
    if isinstance(a, Struct) and isinstance(b, Struct) and a.adt == b.adt and a.fields.keys() == b.fields.keys():
        return Struct(a.adt, {k: vite(c, x, b.fields[k]) for k, x in a.fields.items()})
    if isinstance(a, Tup) and isinstance(b, Tup) and len(a.items) == len(b.items):
        return Tup([vite(c, x, y) for x, y in zip(a.items, b.items)])
    if isinstance(a, Seq) and isinstance(b, Seq):
        return seq_ite(c, a, b)
    if isinstance(a, Mat) and isinstance(b, Mat) and (a.rows, a.cols) == (b.rows, b.cols):
        return Mat(a.rows, a.cols,
                   {(i, j): vite(c, a.get(i, j), b.get(i, j)) for i in range(a.rows) for j in range(a.cols)},
                   vite(c, a.default, b.default) if a.default is not None and b.default is not None else None)
    if hasattr(a, "merge_") and type(a) is type(b):
        r = a.merge_(c, b)
        if r is not None:
            return r
    if key(a) == key(b):
        return a
    return ite(c, to_dd(a), to_dd(b))


def unbox(d):
    """if every leaf of d is a Boxed composite, merge back"""
    if isinstance(d, DD):
        ls = leaves(d)
        if ls and all(isinstance(l, Boxed) for _, l in ls):
            r = ls[-1][1].v
            for g, l in reversed(ls[:-1]):
                r = vite(g, l.v, r)
            return r
    return d


# ---------------------------------------------------------------- sums over comprehensions
def split_free(r, bid):
    """rat leaf -> list of (free Rat coefficient, dependent Rat)"""
    dep_den = any(bid in atom_atoms(ATOMS[x]) for m in r.den for x, _ in m)
    groups = {}
    for m, c in r.num.items():
        fr = tuple((x, e) for x, e in m if bid not in atom_atoms(ATOMS[x]))
        dp = tuple((x, e) for x, e in m if bid in atom_atoms(ATOMS[x]))
        g = groups.setdefault(dp, {})
        g[fr] = g.get(fr, 0) + c
    out = []
    for dp, fr in groups.items():
        f = T.intern_rat(fr, T.ONE_P)
        d = T.intern_rat({dp: Fraction(1)}, T.ONE_P)
        if dep_den:
            d = T.mk_rat({dp: Fraction(1)}, r.den)
        elif r.den != T.ONE_P:
            f = T.mk_rat(fr, r.den)
        out.append((f, d))
    return out


def lift_free(body, bid):
    """(cond, hi, lo) for the top-most condition of body that does not depend on bid, or None"""
    seen = set()
    st = [body]
    best = None
    while st:
        n = st.pop()
        if n.id in seen or n.var is None:
            continue
        seen.add(n.id)
        c = CONDS[n.var]
        if not any(bid in atoms_of(a) for a in c.args):
            if best is None or n.var < best:
                best = n.var
        st += [n.hi, n.lo]
    return best


def cofactor(d, cid, val):
    """full cofactor incl. group exclusivity"""
    c = CONDS[cid]
    r = assume(d, cid, val)
    if val:
        for s in c.group:
            if s is not c:
                r = assume(r, s.id, False)
    return r


def mk_sum(n, b, body):
    """sum of body(b) for b in 0..n"""
    if n.var is not None:
        return dmap(lambda l: mk_sum(mk_leaf(l), b, body), n)
    if b.id not in atoms_of(body):
        return mul(n, body)
    l = lift_free(body, b.id)
    if l is not None:
        return ite(mk_node(l, TRUE, FALSE), mk_sum(n, b, cofactor(body, l, True)),
                   mk_sum(n, b, cofactor(body, l, False)))
    if n.leaf.is_const() and 0 <= n.leaf.const() <= 8:
        return total(vsubst(body, {b.id: num(k)}) for k in range(int(n.leaf.const())))
    if body.var is not None:
        c = CONDS[body.var]
        if c.kind == "zero" and len(c.args) == 1 and c.args[0] is num_atom(b):
            # the first one is different: take it apart and number the others from zero
            first = vsubst(body.hi, {b.id: ZERO})
            later = vsubst(body.lo, {b.id: add(num_atom(b), ONE)})
            r = mk_sum(sub(n, ONE), b, later)
            if later.var is None and all(b.id in atoms_of(mk_leaf(d)) for _, d in split_free(later.leaf, b.id)) \
                    and first is ZERO:
                return r  # no terms for a count of -1
            return ite(gt(n, ZERO), add(first, r), ZERO)
        return _sum_atom(n, b, body)
    acc = ZERO
    for f, d in split_free(body.leaf, b.id):
        dd = mk_leaf(d)
        if b.id not in atoms_of(dd):
            s = mul(n, dd)
        else:
            s = _sum_atom(n, b, dd)
        acc = add(acc, mul(mk_leaf(f), s))
    return acc


def _sum_atom(n, b, body):
    if b.kind != "bound":
        cb = canon_bound(bdepth((body, n)))
        body = vsubst(body, {b.id: num_atom(cb)})
        b = cb
    a = mk_atom("sum", (n, b, body), False, (n.id, b.id, body.id))
    return num_atom(a)


def _rb_bound(maker):
    def f(a, args):
        n, b, body = args
        return maker(n, b, body)

    return f


def mk_over(kind, n, b, body):
    """max/min of body(b) for b in 0..n"""
    if b.kind != "bound":
        cb = canon_bound(bdepth((body, n)))
        body = vsubst(body, {b.id: num_atom(cb)})
        b = cb
    if n is ONE:
        return vsubst(body, {b.id: ZERO})
    a = mk_atom(kind, (n, b, body), False, (n.id, b.id, body.id))
    return num_atom(a)


def combine_over(kind, x0, n, b, body):
    """max(x0, max over body)"""
    ninf = neg(INF) if kind == "maxover" else INF
    if x0 is ninf:
        return mk_over(kind, n, b, body)
    if x0 is vsubst(body, {b.id: num(-1)}):
        return mk_over(kind, add(n, ONE), b, vsubst(body, {b.id: sub(num_atom(b), ONE)}))
    if x0 is vsubst(body, {b.id: ZERO}):
        return mk_over(kind, n, b, body)
    o = mk_over(kind, n, b, body)
    return max2(x0, o) if kind == "maxover" else min2(x0, o)


def _sub_binder(self, a):
    """substitution inside binder atoms must not capture; canonical bound ids are re-chosen"""
    n, b, body = a.args
    nb = fresh_bound("k")
    body2 = vsubst(body, {b.id: num_atom(nb)})
    body2 = vsubst(body2, self.m)
    n2 = self.v(n)
    if a.kind == "sum":
        return mk_sum(n2, nb, body2)
    return mk_over(a.kind, n2, nb, body2)


_old_atom = _Sub.atom


def _atom(self, a):
    if a.id not in self.m and a.kind in ("sum", "maxover", "minover") and (atom_atoms(a) & self.ids):
        r = self.amemo.get(a.id)
        if r is None:
            r = _sub_binder(self, a)
            self.amemo[a.id] = r
        return r
    return _old_atom(self, a)


_Sub.atom = _atom


def _aa_binder(a):
    n, b, body = a.args
    return frozenset((atoms_of(body) | atoms_of(n) | {a.id}) - {b.id})





def atom_atoms(a):  # noqa: F811
    r = _aa_memo.get(a.id)
    if r is None:
        if a.kind in ("sum", "maxover", "minover"):
            r = _aa_binder(a)
            _aa_memo[a.id] = r
            return r
        s = {a.id}
        for x in a.args:
            s |= atoms_of(x)
        r = frozenset(s)
        _aa_memo[a.id] = r
    return r


def width(t):
    n = t[1][1:] if len(t) > 1 and isinstance(t[1], str) else ""
    return 64 if n == "size" else int(n) if n.isdigit() else 64


def narrowed(v, src, dst):
    """v converted to the narrower of two number types: identity only where nothing can be lost.  64-bit to 32-bit
    integers are taken as lossless (counts, exponents)."""
    if src[0] not in ("int", "float", "bool") or dst[0] not in ("int", "float"):
        return v
    w = width(dst)
    if dst[0] == "float":
        if w >= 64 or src == dst:
            return v

        def f(r):
            if r.is_const() and r.const().denominator == 1 and abs(r.const()) < 1 << 24:
                return mk_leaf(r)
            return num_atom(app_atom("round:" + dst[1], (mk_leaf(r),)))
    else:
        if w > 16 or src[0] == "int" and (src == dst or width(src) < w):
            return v
        lo, hi = (0, 1 << w) if dst[1].startswith("u") else (-(1 << (w - 1)), 1 << (w - 1))

        def f(r):
            if r.is_const() and lo <= r.const() < hi:
                return mk_leaf(r)
            return num_atom(app_atom("wrap:" + dst[1], (mk_leaf(r),), True))
    return dmap(f, v)
