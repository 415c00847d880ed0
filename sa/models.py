"""Models of the library functions the analysed program uses (std, itertools, nalgebra,
ode_solvers, anyhow).  Every function that is not listed becomes an uninterpreted function of its
(frozen) arguments, and everything reachable through its `&mut` arguments is forgotten."""
from .values import *
from . import term as T

CONSTS = {
    "PI": PI, "INFINITY": INF, "NEG_INFINITY": neg(INF),
    "TAU": mul(num(2), PI), "FRAC_PI_2": div(PI, num(2)), "FRAC_PI_4": div(PI, num(4)),
    "FRAC_PI_3": div(PI, num(3)), "FRAC_PI_6": div(PI, num(6)), "FRAC_PI_8": div(PI, num(8)),
    "EPSILON": num(Fraction(1, 1 << 52)), "MIN_POSITIVE": num(Fraction(1, 1 << 1022)),
    "FRAC_1_PI": div(ONE, PI), "FRAC_2_PI": div(num(2), PI),
}
SYMCONSTS = ("NAN", "E", "SQRT_2", "LN_2", "LN_10")


def named_const(path):
    if not (path.startswith("std::") or path.startswith("core::")):
        return None
    n = path.rsplit("::", 1)[-1]
    if "f64" in path or "f32" in path:
        if n in CONSTS:
            return CONSTS[n]
        if n in SYMCONSTS:
            return num_atom(mk_atom("const", (n,)))
        if n == "MAX":
            return num_atom(mk_atom("const", ("f64MAX",)))
        if n == "MIN":
            return neg(num_atom(mk_atom("const", ("f64MAX",))))
    if n == "MAX" or n == "MIN":
        import re
        m = re.search(r"\b([ui])(8|16|32|64|128|size)\b", path)
        if m:
            w = 64 if m.group(2) == "size" else int(m.group(2))
            if m.group(1) == "u":
                return num((1 << w) - 1) if n == "MAX" else ZERO
            return num((1 << (w - 1)) - 1) if n == "MAX" else num(-(1 << (w - 1)))
    return None


# ---------------------------------------------------------------- streams
class Stream:
    v = None


class SeqStream(Stream):
    """elements of a sequence: by value, or by reference (place given)"""

    def __init__(self, v, mode, place=None):
        self.v = v
        self.mode = mode
        self.place = place

    def length(self, I):
        return self.v.length()

    def get(self, I, i):
        from .interp import Ref as R
        if self.mode == "mut":
            return mk_leaf(R(self.place.cell, self.place.path + (("i", i),)))
        x = I.index_value(self.v, i)
        if self.mode == "ref":
            return I.ref(x)
        return x


class RangeStream(Stream):
    def __init__(self, lo, n):
        self.lo, self.n = lo, n

    def length(self, I):
        return self.n

    def get(self, I, i):
        return add(self.lo, i)


class MapStream(Stream):
    def __init__(self, src, f):
        self.src, self.f = src, f

    def length(self, I):
        return self.src.length(I)

    def get(self, I, i):
        return I.apply(self.f, [self.src.get(I, i)])


class FnStream(Stream):
    """the values of a function called until it gives None; only for consumers that run it in a loop of their own"""

    def __init__(self, f):
        self.f = f

    def length(self, I):
        return None

    def get(self, I, i):
        x = I.freeze(I.apply(self.f, []))
        if I.st.dead:
            return UNIT
        lab = I.frames[-1].labels[-1]

        def ends():
            lab["breaks"].append((I.st, UNIT))
            I.die()
            return UNIT

        return I.branch(I.is_variant(x, "Some"), lambda: I.variant_field(x, "Some", "0"), ends)


class InspectStream(MapStream):
    def get(self, I, i):
        x = self.src.get(I, i)
        I.apply(self.f, [I.ref(x)])
        return x


class EnumerateStream(Stream):
    def __init__(self, src):
        self.src = src

    def length(self, I):
        return self.src.length(I)

    def get(self, I, i):
        return Tup([i, self.src.get(I, i)])


def len_min(a, b):
    if a is None or b is None:
        from .interp import Unsupported
        raise Unsupported("an iterator without a known length is combined with another")
    if a is b:
        return a
    if a is INF or b is INF:
        return b if a is INF else a
    d = sub(a, b)
    if d.var is None and d.leaf.is_const():
        return a if d.leaf.const() <= 0 else b
    return min2(a, b)


class ZipStream(Stream):
    def __init__(self, a, b):
        self.a, self.b = a, b

    def length(self, I):
        return len_min(self.a.length(I), self.b.length(I))

    def get(self, I, i):
        x = self.a.get(I, i)
        return Tup([x, self.b.get(I, i)])


class WindowStream(Stream):
    """tuple_windows / windows(k)"""

    def __init__(self, src, k, tup):
        self.src, self.k, self.tup = src, k, tup

    def length(self, I):
        return sub(self.src.length(I), num(self.k - 1))

    def get(self, I, i):
        xs = [self.src.get(I, add(i, num(j))) for j in range(self.k)]
        return Tup(xs) if self.tup else I.ref(Lst(xs))


class SkipStream(Stream):
    def __init__(self, src, n):
        self.src, self.n = src, n

    def length(self, I):
        return sub(self.src.length(I), self.n)

    def get(self, I, i):
        return self.src.get(I, add(i, self.n))


class RepeatStream(Stream):
    """the same value over and over"""

    def __init__(self, x):
        self.x = x

    def length(self, I):
        return INF

    def get(self, I, i):
        return self.x


class TakeStream(Stream):
    def __init__(self, src, n):
        self.src, self.n = src, n

    def length(self, I):
        return len_min(self.n, self.src.length(I))

    def get(self, I, i):
        return self.src.get(I, i)


class RevStream(Stream):
    def __init__(self, src):
        self.src = src

    def length(self, I):
        return self.src.length(I)

    def get(self, I, i):
        return self.src.get(I, sub(sub(self.src.length(I), ONE), i))


class ChainStream(Stream):
    def __init__(self, a, b):
        self.a, self.b = a, b

    def length(self, I):
        return add(self.a.length(I), self.b.length(I))

    def get(self, I, i):
        n = self.a.length(I)
        return vite(lt(i, n), I.freeze(self.a.get(I, i)), I.freeze(self.b.get(I, sub(i, n))))


class DerefStream(Stream):
    def __init__(self, src):
        self.src = src

    def length(self, I):
        return self.src.length(I)

    def get(self, I, i):
        return I.deref(self.src.get(I, i))


class OpaqueStream(Stream):
    def __init__(self, atom, ty):
        self.atom, self.ty = atom, ty

    def length(self, I):
        return num_atom(app_atom("len", (self.atom,), True))

    def get(self, I, i):
        return I.idx(self.atom, i, self.ty)


def _iter(st, pos=ZERO):
    from .interp import Iter
    return Iter(st, pos)


def _range_stream(I, v):
    p = I.apath(v.adt)
    if p == "std::ops::Range":
        return RangeStream(v.fields["start"], _clamp(sub(v.fields["end"], v.fields["start"])))
    if p == "std::ops::RangeInclusive":
        return RangeStream(v.fields["start"], _clamp(add(sub(v.fields["end"], v.fields["start"]), ONE)))
    return None


def _clamp(n):
    if n.var is None and n.leaf.is_const() and n.leaf.const() < 0:
        return ZERO
    return n


def into_iter(I, v, e=None):
    from .interp import Iter, Unsupported, Place
    if isinstance(v, Iter):
        return v
    pl = None
    mode = "val"
    n = 0
    while isinstance(v, DD) and n < 8:
        n += 1
        u = unbox(v)
        if u is not v:
            v = u
            continue
        if v.var is None and isinstance(v.leaf, Ref):
            pl = Place(v.leaf.cell, v.leaf.path)
            v = I.read(pl)
            mode = "ref"
            continue
        if any(isinstance(l, Ref) for _, l in leaves(v)):
            v = I.deref(v)
            mode = "ref"
            continue
        break
    if isinstance(v, Iter):
        return v
    if isinstance(v, Seq):
        return _iter(SeqStream(v, mode, pl))
    if isinstance(v, Mat):
        return _iter(SeqStream(mat_seq(v), mode, pl))
    if isinstance(v, Struct):
        s = _range_stream(I, v)
        if s:
            return _iter(s)
    if isinstance(v, DD):
        # Option as an iterator, opaque iterators
        ls = leaves(v)
        if len(ls) == 1 and isinstance(ls[0][1], Opq):
            return _iter(OpaqueStream(ls[0][1].atom, ("other", "item")))
    raise Unsupported("iteration over %r" % (v,))


def mat_seq(m):
    return Lst([m.get(i, j) for j in range(m.cols) for i in range(m.rows)])


def rest(I, it):
    """stream of the remaining elements of an iterator value"""
    if it.pos is ZERO:
        return it.st
    return SkipStream(it.st, it.pos)


# ---------------------------------------------------------------- consumers
def drain(I, it, e, f=None):
    """run an iterator to its end; returns the yielded sequence"""
    from .interp import Unsupported
    st = rest(I, it)
    n = st.length(I)
    if n is None:
        raise Unsupported("an iterator without a known length is collected")
    k = I.const_int(n)
    if k is not None and 0 <= k <= 16:
        out = []
        for i in range(k):
            x = st.get(I, num(i))
            if I.st.dead:
                return Lst([])
            out.append(I.freeze(x) if f is None else f(x))
        return Lst(out)

    def run(i):
        x = st.get(I, i)
        if I.st.dead:
            return UNIT
        return I.freeze(x) if f is None else f(x)

    r = I.loop(n, run, [], e, want_yield=lambda s: s)
    return Lst([]) if I.st.dead and r is UNIT else r


def drain_fallible(I, it, e, rty):
    """run an iterator of Results (Options) up to its first failure: Ok of the payloads, or that failure"""
    yes = "Ok" if rty[1] == I.RES else "Some"
    st = rest(I, it)
    n = st.length(I)
    k = I.const_int(n)
    if k is not None and 0 <= k <= 16:
        return None

    def run(i):
        x = I.freeze(st.get(I, i))
        if I.st.dead:
            return UNIT
        fr = I.frames[-1]

        def fails():
            p = I.variant_field(x, "Err", "0") if yes == "Ok" else None
            fr.labels[-1]["breaks"].append((I.st, I.None_() if yes == "Some" else I.Err(p)))
            I.die()
            return UNIT

        return I.branch(I.is_variant(x, yes), lambda: I.variant_field(x, yes, "0"), fails)

    r = I.loop(n, run, [], e, want_yield=lambda s: I.Ok(s) if yes == "Ok" else I.Some(s))
    return r


def drain_until(I, it, e, body, done):
    """run an iterator; body(x, i, stop) handles an element, and stop(v) ends the run with value v on the current
    path; done() is the value of a run to the end"""
    st = rest(I, it)
    n = st.length(I)
    k = I.const_int(n)
    fr = I.frames[-1]

    def run(i):
        lab = fr.labels[-1]
        x = st.get(I, i)
        if I.st.dead:
            return UNIT

        def stop(v):
            lab["breaks"].append((I.st, v))
            I.die()
            return UNIT

        body(x, i, stop)
        return UNIT

    if k is not None and (k <= 1 or k <= 4 and isinstance(getattr(st, "v", None), Lst)):
        lab = {"label": [], "breaks": [], "conts": []}
        fr.labels.append(lab)
        for i in range(k):
            run(num(i))
            if I.st.dead:
                break
        fr.labels.pop()
        ends = list(lab["breaks"])
        if not I.st.dead:
            v = done()
            ends.append((I.st, v))
        I.st, v = I.join_exits(ends)
        return v
    return I.loop(n, run, [], e, want_yield=lambda s: done())


def seq_map(v, f):
    if isinstance(v, Lst):
        return Lst([f(x) for x in v.items])
    if isinstance(v, Comp):
        return Comp(v.n, v.b, f(v.body))
    b = fresh_bound("m")
    return Comp(v.length(), b, f(v.elem(num_atom(b))))


def seq_body(v):
    """(n, bound, body) of a sequence"""
    if isinstance(v, Comp):
        return v.n, v.b, v.body
    b = fresh_bound("m")
    return v.length(), b, v.elem(num_atom(b))


def seq_sum(v):
    if isinstance(v, Lst):
        return total(v.items)
    n, b, body = seq_body(v)
    return mk_sum(n, b, body)


def seq_over(kind, v):
    if isinstance(v, Lst):
        r = v.items[0]
        for x in v.items[1:]:
            r = max2(r, x) if kind == "maxover" else min2(r, x)
        return r
    n, b, body = seq_body(v)
    return mk_over(kind, n, b, body)


def simp_seq(v):
    """Comp over the whole of an opaque sequence is that sequence"""
    return v


# ---------------------------------------------------------------- ordering, equality
def ordering(I, x, y):
    o = I.p.ids("std::cmp::Ordering")
    adt = o[0] if o else "Ordering"
    L, E, G = (mk_leaf(Enum(adt, n, {})) for n in ("Less", "Equal", "Greater"))
    return ite(lt(x, y), L, ite(eq(x, y), E, G))


def cmp_kind(I, f):
    """does the comparator order ascending ('max') or descending ('min') by the identity key?"""
    a, b = sym(T.fresh_name("ca")), sym(T.fresh_name("cb"))
    s = I.st
    r = I.apply(f, [I.ref(I.ref(a)), I.ref(I.ref(b))])
    I.st = s
    r = I.deref(r)
    if not isinstance(r, DD):
        return 0
    c = bany((lt(a, b), eq(a, b), gt(a, b)))
    r = restrict(r, c)
    if r is restrict(ordering(I, a, b), c):
        return 1
    if r is restrict(ordering(I, b, a), c):
        return -1
    return 0


def val_eq(I, l, r):
    l, r = I.deref(l), I.deref(r)
    if l is r:
        return TRUE
    if isinstance(l, DD) and isinstance(r, DD):
        if is_num(l) and is_num(r):
            return eq(l, r)
        if is_bool(l) and is_bool(r):
            return ite(l, r, bnot(r))

        def f(a, b):
            if isinstance(a, Enum) and isinstance(b, Enum):
                if a.variant != b.variant:
                    return FALSE
                return ball(val_eq(I, a.fields[k], b.fields[k]) for k in a.fields)
            if isinstance(a, Boxed) and isinstance(b, Boxed):
                return val_eq(I, a.v, b.v)
            if isinstance(a, StrV) and isinstance(b, StrV):
                return bconst(a.s == b.s)
            x, y = sorted((mk_leaf(a), mk_leaf(b)), key=lambda d: d.id)
            if x is y:
                return TRUE
            return bool_atom("eq", (x, y), (key(x), key(y)))

        return dmap2(f, l, r)
    if isinstance(l, Struct) and isinstance(r, Struct):
        im = None
        return ball(val_eq(I, l.fields[k], r.fields[k]) for k in l.fields)
    if isinstance(l, Tup) and isinstance(r, Tup):
        return ball(val_eq(I, a, b) for a, b in zip(l.items, r.items))
    if isinstance(l, Lst) and isinstance(r, Lst):
        if len(l.items) != len(r.items):
            return FALSE
        return ball(val_eq(I, a, b) for a, b in zip(l.items, r.items))
    if key(l) == key(r):
        return TRUE
    return bool_atom("eq", (l, r), (key(l), key(r)))


# ---------------------------------------------------------------- linear algebra
def is_vec(v):
    return isinstance(v, (Seq, Mat))


def bin_num(op, a, b):
    return {"add": add, "sub": sub, "mul": mul, "div": div}[op](a, b)


def mat_mul(a, b):
    e = {}
    for i in range(a.rows):
        for j in range(b.cols):
            s = ZERO
            for k in range(a.cols):
                x, y = a.get(i, k), b.get(k, j)
                if x is not ZERO and y is not ZERO:
                    s = add(s, mul(x, y))
            e[(i, j)] = s
    return Mat(a.rows, b.cols, e, ZERO)


def elementwise(op, a, b):
    if isinstance(a, Mat) and isinstance(b, Mat):
        return Mat(a.rows, a.cols, {(i, j): bin_num(op, a.get(i, j), b.get(i, j))
                                    for i in range(a.rows) for j in range(a.cols)}, ZERO)
    if isinstance(a, Mat):
        return Mat(a.rows, a.cols, {(i, j): bin_num(op, a.get(i, j), b)
                                    for i in range(a.rows) for j in range(a.cols)}, ZERO)
    if isinstance(b, Mat):
        return elementwise(op, b, a) if op in ("add", "mul") else Mat(
            b.rows, b.cols, {(i, j): bin_num(op, a, b.get(i, j))
                             for i in range(b.rows) for j in range(b.cols)}, ZERO)
    if isinstance(a, Seq) and isinstance(b, Seq):
        if isinstance(a, Lst) and isinstance(b, Lst) and len(a.items) == len(b.items):
            return Lst([bin_num(op, x, y) for x, y in zip(a.items, b.items)])
        n, bd, body = seq_body(a)
        return Comp(n, bd, bin_num(op, body, b.elem(num_atom(bd))))
    if isinstance(a, Seq):
        return seq_map(a, lambda x: bin_num(op, x, b))
    return seq_map(b, lambda x: bin_num(op, a, x))


def same_shape(I, a, b, e):
    """the library panics when the operands' dimensions differ"""
    c = FALSE
    if isinstance(a, Mat) and isinstance(b, Mat):
        c = bconst((a.rows, a.cols) != (b.rows, b.cols))
    elif isinstance(a, Seq) and isinstance(b, Seq):
        c = restrict(bnot(eq(a.length(), b.length())), I.st.guard)
    if c is not FALSE:
        I.event("dims", cond=c, len=a.length() if isinstance(a, Seq) else None, site=I.site(e) if e else "?")


def arith(I, op, a, b, rty, path, e=None):
    from .interp import Unsupported
    a, b = I.deref(a), I.deref(b)
    if isinstance(a, DD) and isinstance(b, DD) and is_num(a) and is_num(b):
        return bin_num(op, a, b)
    if is_vec(a) or is_vec(b):
        if op == "mul" and isinstance(a, Mat) and isinstance(b, Mat):
            return mat_mul(a, b)
        if op in ("add", "sub") or (op in ("mul", "div") and not (is_vec(a) and is_vec(b))):
            same_shape(I, a, b, e)
            return elementwise(op, a, b)
    return I.app("op:" + op, [a, b], rty)


# ---------------------------------------------------------------- options and results
def opt_match(I, v, some, none):
    """branch on an Option/Result value"""
    v = I.deref(v)
    yes = "Ok" if _is_res(I, v) else "Some"
    c = I.is_variant(v, yes)
    return I.branch(c, lambda: some(I.variant_field(v, yes, "0")),
                    lambda: none(I.variant_field(v, "Err", "0") if yes == "Ok" else None))


def _is_res(I, v):
    if isinstance(v, DD):
        for _, l in leaves(v):
            if isinstance(l, Enum):
                return l.adt == I.RES
            if isinstance(l, Opq) and l.ty[0] == "adt":
                return l.ty[1] == I.RES
    return False


def want(I, v, name, what, e):
    """expect/unwrap: panic unless v is the given variant"""
    v = I.deref(v)
    c = I.is_variant(v, name)
    s0 = I.st
    I.st = s0.fork(bnot(c))
    if not I.st.dead:
        other = None
        if name == "Ok":
            other = I.variant_field(v, "Err", "0")
        I.event("panic", callee=what, args=[I.freeze(other)] if other is not None else [], site=I.site(e))
    I.st = s0.fork(c)
    if I.st.dead:
        return UNIT
    return I.variant_field(v, name, "0")


def const_str(I, v):
    v = I.deref(v)
    return v


# ---------------------------------------------------------------- conversions
def convert(I, src, sty, dty, e):
    """From/Into between concrete types"""
    p = I.p
    fr = p.ids("std::convert::From")
    if sty != dty and sty[0] in ("param", "alias"):
        return I.app("std::convert::Into::into", [src], dty)
    if fr:
        m = p.find_impl(fr[0], (dty, sty))
        if m:
            im, s = m
            for it in im["_items"].values():
                if it.get("name", p.defs[it["id"]]["name"]) == "from":
                    return I.call_def(it["id"], tuple(s.get(g) for g in p.defs[it["id"]].get("generics", [])), [src], dty, e)
    return src


PURE_ID = {
    "clone", "to_owned", "as_ref", "as_mut", "borrow", "borrow_mut", "as_slice", "as_mut_slice", "to_vec",
    "into_boxed_slice", "into_vec", "cloned", "copied", "must_use", "as_deref", "as_deref_mut", "into_inner",
    "to_string", "into_owned", "black_box", "identity", "by_ref", "from_residual_", "as_str", "clone_owned",
    "into_string", "data", "from_fn_",
}

F1 = {"sin": sin, "cos": cos, "exp": exp, "ln": ln, "abs": abs_, "sqrt": sqrt}


def call(I, path, did, ga, args, rty, e):
    name = path.rsplit("::", 1)[-1]
    h = HANDLERS.get(name)
    d = I.p.defs.get(did, {})
    if h is not None and not d.get("local", False):
        r = h(I, path, ga, args, rty, e)
        if r is not NotImplemented:
            return r
    if d.get("local") and d.get("trait") and name in ("eq", "ne", "clone"):
        r = HANDLERS[name](I, path, ga, args, rty, e)
        if r is not NotImplemented:
            return r
    return unknown(I, path, args, rty, e)


def unknown(I, path, args, rty, e):
    I.opaque_calls[path] = I.opaque_calls.get(path, 0) + 1
    fa = [I.freeze(a) for a in args]
    if rty[0] == "never":
        I.event("panic", callee=path, args=fa, site=I.site(e))
        return I.die()
    q = I.event("call", callee=path, path=path, args=fa, site=I.site(e), opaque=True)
    v = I.app(path, args, rty)
    if q is not None:
        q["out"] = v
    I.havoc_muts(args, path, fa)
    return v


HANDLERS = {}


def model(*names):
    def dec(f):
        for n in names:
            HANDLERS[n] = f
        return f

    return dec


def is_float(I, v):
    v = I.deref(v)
    return isinstance(v, DD) and is_num(v)


# --- floats
def _mk_f1(n):
    def f(I, path, ga, args, rty, e):
        if len(args) == 1 and is_float(I, args[0]):
            return F1[n](I.deref(args[0]))
        return NotImplemented

    return f


for _n in F1:
    HANDLERS[_n] = _mk_f1(_n)


@model("powi", "powf", "pow")
def _powi(I, path, ga, args, rty, e):
    x, n = I.deref(args[0]), I.deref(args[1])
    if not (isinstance(n, DD) and n.var is None and isinstance(n.leaf, Rat) and n.leaf.is_const()):
        return I.app("pow", [x, n], rty)
    k = n.leaf.const()
    if k.denominator == 1 and abs(k) <= 12:
        return powi(x, int(k))
    if k.denominator == 2 and abs(k) <= 4:
        q = int(k - Fraction(1, 2))
        return mul(powi(x, q), sqrt(x))
    return I.app("pow", [x, n], rty)


@model("mul_add")
def _mul_add(I, path, ga, args, rty, e):
    a, b, c = (I.deref(x) for x in args)
    return add(mul(a, b), c)


@model("recip")
def _recip(I, path, ga, args, rty, e):
    return div(ONE, I.deref(args[0]))


@model("signum")
def _signum(I, path, ga, args, rty, e):
    x = I.deref(args[0])
    if rty[0] != "float":
        return NotImplemented
    return ite(lt(x, ZERO), num(-1), ONE)


@model("is_sign_negative")
def _isn(I, path, ga, args, rty, e):
    return lt(I.deref(args[0]), ZERO)


@model("is_sign_positive")
def _isp(I, path, ga, args, rty, e):
    return ge(I.deref(args[0]), ZERO)


@model("is_infinite")
def _isinf(I, path, ga, args, rty, e):
    return is_infinite(I.deref(args[0]))


@model("is_nan")
def _isnan(I, path, ga, args, rty, e):
    return is_nan(I.deref(args[0]))


@model("is_finite")
def _isfin(I, path, ga, args, rty, e):
    x = I.deref(args[0])
    return band(bnot(is_infinite(x)), bnot(is_nan(x)))


@model("sin_cos")
def _sc(I, path, ga, args, rty, e):
    x = I.deref(args[0])
    return Tup([sin(x), cos(x)])


@model("exp_m1")
def _em1(I, path, ga, args, rty, e):
    return sub(exp(I.deref(args[0])), ONE)


@model("ln_1p")
def _l1p(I, path, ga, args, rty, e):
    return ln(add(ONE, I.deref(args[0])))


@model("hypot")
def _hyp(I, path, ga, args, rty, e):
    a, b = I.deref(args[0]), I.deref(args[1])
    return sqrt(add(mul(a, a), mul(b, b)))


@model("to_radians")
def _tr(I, path, ga, args, rty, e):
    return div(mul(I.deref(args[0]), PI), num(180))


@model("to_degrees")
def _td(I, path, ga, args, rty, e):
    return div(mul(I.deref(args[0]), num(180)), PI)


@model("abs_sub", "abs_diff")
def _absdiff(I, path, ga, args, rty, e):
    return abs_(sub(I.deref(args[0]), I.deref(args[1])))


@model("max", "min")
def _maxmin(I, path, ga, args, rty, e):
    n = path.rsplit("::", 1)[-1]
    if len(args) == 1:
        v = I.deref(args[0])
        if isinstance(v, (Mat, Seq)):
            return seq_over(n + "over", mat_seq(v) if isinstance(v, Mat) else v)
        it = as_iter(I, args[0])
        if it is not None:
            s = drain(I, it, e)
            return _opt_nonempty(I, s, lambda: seq_over(n + "over", s))
        return NotImplemented
    a, b = I.deref(args[0]), I.deref(args[1])
    if isinstance(a, DD) and isinstance(b, DD) and is_num(a) and is_num(b):
        return max2(a, b) if n == "max" else min2(a, b)
    return NotImplemented


@model("clamp")
def _clampf(I, path, ga, args, rty, e):
    x, lo, hi = (I.deref(a) for a in args)
    return min2(max2(x, lo), hi)


@model("total_cmp", "partial_cmp", "cmp")
def _cmpf(I, path, ga, args, rty, e):
    a, b = I.deref(args[0]), I.deref(args[1])
    if isinstance(a, DD) and isinstance(b, DD) and is_num(a) and is_num(b):
        o = ordering(I, a, b)
        if not path.endswith("partial_cmp"):
            return o
        return vite(bany((lt(a, b), eq(a, b), gt(a, b))), I.Some(o), I.None_())
    return NotImplemented


@model("reverse")
def _rev_ord(I, path, ga, args, rty, e):
    v = I.deref(args[0])
    if isinstance(v, DD) and "Ordering" in path:
        def f(l):
            sw = {"Less": "Greater", "Greater": "Less", "Equal": "Equal"}
            return mk_leaf(Enum(l.adt, sw[l.variant], {}))
        return dmap(f, v)
    return NotImplemented


@model("solve_mut")
def _solve_mut(I, path, ga, args, rty, e):
    """solving in place: the same solution, written over the right-hand side; garbage when it fails"""
    if "nalgebra" not in path or rty[0] != "bool" or len(args) != 2:
        return NotImplemented
    pl = I.deref_place(args[1])
    old = I.read(pl)
    t = I.p.ty(e["args"][1]["ty"])
    o = I.p.ids("std::option::Option")
    if t[0] != "ref" or not o:
        return NotImplemented
    name = path[:-len("_mut")]
    fa = [I.freeze(a) for a in args]
    r = I.app(name, args, ("adt", o[0], (t[1],)))
    I.opaque_calls[path] = I.opaque_calls.get(path, 0) + 1
    I.event("call", callee=path, path=name, args=fa, site=I.site(e), opaque=True, result=r)
    ok = I.is_variant(r, "Some")
    x = I.variant_field(r, "Some", "0")
    bad = I.havoc_like(old, app_atom("out:%s:1" % path, tuple(fa)))
    I.write(pl, I.vmerge(ok, x, bad))
    return ok


ORD = {"is_lt": ("Less",), "is_le": ("Less", "Equal"), "is_gt": ("Greater",), "is_ge": ("Greater", "Equal"),
       "is_eq": ("Equal",), "is_ne": ("Less", "Greater")}


@model(*ORD)
def _is_ord(I, path, ga, args, rty, e):
    v = I.deref(args[0])
    if isinstance(v, DD) and "Ordering" in path:
        k = ORD[path.rsplit("::", 1)[-1]]
        return bany(I.is_variant(v, x) for x in k)
    return NotImplemented


@model("lt", "le", "gt", "ge")
def _cmpop(I, path, ga, args, rty, e):
    a, b = I.deref(args[0]), I.deref(args[1])
    if isinstance(a, DD) and isinstance(b, DD) and is_num(a) and is_num(b):
        return {"lt": lt, "le": le, "gt": gt, "ge": ge}[path.rsplit("::", 1)[-1]](a, b)
    return NotImplemented


@model("eq")
def _eq(I, path, ga, args, rty, e):
    return val_eq(I, args[0], args[1])


@model("ne")
def _ne(I, path, ga, args, rty, e):
    return bnot(val_eq(I, args[0], args[1]))


@model("not")
def _not(I, path, ga, args, rty, e):
    v = I.deref(args[0])
    return bnot(v) if isinstance(v, DD) and is_bool(v) else NotImplemented


# --- text
def is_text(I, v):
    v = I.deref(v)
    l = v.leaf if isinstance(v, DD) and v.var is None else None
    return isinstance(l, StrV) or isinstance(l, Opq) and l.atom.id in I.texts


def text_cat(I, a, b):
    a, b = I.freeze(I.deref(a)), I.freeze(I.deref(b))
    x, y = (v.leaf if isinstance(v, DD) and v.var is None else None for v in (a, b))
    if isinstance(x, StrV) and isinstance(y, StrV):
        return mk_leaf(StrV(x.s + y.s))
    v = I.app("concat", [a, b], ("other", "text"))
    I.texts[v.leaf.atom.id] = ("concat", [a, b])
    return v


# --- arithmetic traits
def _mk_arith(op):
    def f(I, path, ga, args, rty, e):
        if op == "add" and is_text(I, args[0]):
            return text_cat(I, args[0], args[1])
        if "ops::" in path or "num::" in path or "impl" in path:
            return arith(I, op, args[0], args[1], rty, path, e)
        return NotImplemented

    return f


for _n in ("add", "sub", "mul", "div"):
    HANDLERS[_n] = _mk_arith(_n)


def _mk_arith_assign(op):
    def f(I, path, ga, args, rty, e):
        from .interp import Place
        pl = I.deref_place(args[0])
        if op == "add" and is_text(I, I.read(pl)):
            I.write(pl, text_cat(I, I.read(pl), args[1]))
            return UNIT
        v = arith(I, op, I.read(pl), args[1], ("other", ""), path)
        I.write(pl, v)
        return UNIT

    return f


for _n in ("add", "sub", "mul", "div"):
    HANDLERS[_n + "_assign"] = _mk_arith_assign(_n)


@model("neg")
def _neg(I, path, ga, args, rty, e):
    v = I.deref(args[0])
    if isinstance(v, DD) and is_num(v):
        return neg(v)
    if is_vec(v):
        return elementwise("mul", v, num(-1))
    return NotImplemented


@model("saturating_sub")
def _satsub(I, path, ga, args, rty, e):
    a, b = I.deref(args[0]), I.deref(args[1])
    return ite(lt(a, b), ZERO, sub(a, b))


@model("wrapping_sub", "wrapping_add", "saturating_add", "wrapping_mul", "saturating_mul")
def _wrap(I, path, ga, args, rty, e):
    a, b = I.deref(args[0]), I.deref(args[1])
    n = path.rsplit("_", 1)[-1]
    return {"sub": sub, "add": add, "mul": mul}[n](a, b)


@model("checked_sub")
def _chks(I, path, ga, args, rty, e):
    a, b = I.deref(args[0]), I.deref(args[1])
    return ite(lt(a, b), I.None_(), I.Some(sub(a, b)))


@model("checked_add")
def _chka(I, path, ga, args, rty, e):
    return I.Some(add(I.deref(args[0]), I.deref(args[1])))


# --- identity-like
@model("clone", "to_owned", "cloned", "copied", "clone_owned")
def _clone(I, path, ga, args, rty, e):
    from .interp import Iter
    a = args[0]
    v = a
    if isinstance(v, DD) and v.var is None and isinstance(v.leaf, Ref):
        v = I.read(I.deref_place(v))
    if isinstance(v, Iter):
        if path.rsplit("::", 1)[-1] in ("cloned", "copied"):
            return _iter(DerefStream(rest(I, v)))
        return v
    if path.rsplit("::", 1)[-1] in ("cloned", "copied"):
        v = I.deref(a)
        if isinstance(v, DD) and any(isinstance(l, Enum) for _, l in leaves(v)):
            return opt_match(I, v, lambda x: I.Some(I.deref(x)), lambda _: I.None_())
        return v
    return I.deref(a) if not isinstance(v, (Seq, Struct, Tup, Mat)) else v


@model("as_ref", "as_mut", "borrow", "borrow_mut", "as_slice", "as_mut_slice", "must_use", "black_box",
       "identity", "as_deref", "as_deref_mut", "by_ref", "as_str", "as_bytes", "get_mut")
def _same(I, path, ga, args, rty, e):
    if "RefCell" in path or "cell::Cell" in path:
        pl = I.deref_place(args[0])
        return mk_leaf(Ref(pl.cell, pl.path + ("value",)))
    if "get_mut" in path:
        return NotImplemented
    if "Option" in path or "Result" in path:
        return I.deref(args[0])
    return args[0]


@model("into_inner")
def _into_inner(I, path, ga, args, rty, e):
    v = I.deref(args[0])
    if isinstance(v, Struct) and "value" in v.fields:
        return v.fields["value"]
    return v


@model("replace")
def _replace(I, path, ga, args, rty, e):
    from .interp import Place
    pl = I.deref_place(args[0])
    if "cell" in path:
        pl = pl.ext("value")
    elif "mem" not in path and "Option" not in path:
        return NotImplemented
    old = I.read(pl)
    I.write(pl, args[1])
    if "Option" in path:
        I.write(pl, I.Some(args[1]))
    return old


@model("set")
def _cellset(I, path, ga, args, rty, e):
    if "cell" not in path:
        return NotImplemented
    pl = I.deref_place(args[0]).ext("value")
    I.write(pl, args[1])
    return UNIT


@model("swap")
def _swap(I, path, ga, args, rty, e):
    if "mem" not in path:
        return NotImplemented
    a, b = I.deref_place(args[0]), I.deref_place(args[1])
    x, y = I.read(a), I.read(b)
    I.write(a, y)
    I.write(b, x)
    return UNIT


@model("drop", "forget")
def _drop(I, path, ga, args, rty, e):
    return UNIT


@model("take")
def _take(I, path, ga, args, rty, e):
    if len(args) == 2:
        it = as_iter(I, args[0])
        if it is not None:
            return _iter(TakeStream(rest(I, it), I.deref(args[1])))
        return NotImplemented
    pl = I.deref_place(args[0])
    if "cell" in path:
        pl = pl.ext("value")
    old = I.read(pl)
    if "Option" in path:
        I.write(pl, I.None_())
    else:
        I.write(pl, default_of(I, rty, e))
    return old


def default_of(I, t, e):
    k = t[0]
    if k in ("float", "int"):
        return ZERO
    if k == "bool":
        return FALSE
    if k == "tuple":
        return Tup([default_of(I, x, e) for x in t[1]])
    if k == "adt":
        p = I.apath(t[1])
        if p == "std::vec::Vec":
            return Lst([])
        if p == "std::option::Option":
            return I.None_()
        if p == "std::string::String":
            return mk_leaf(StrV(""))
        df = I.p.ids("std::default::Default")
        if df:
            m = I.p.find_impl(df[0], (t,))
            if m:
                for it in m[0]["_items"].values():
                    return I.call_def(it["id"], tuple(m[1].values()), [], t, e)
    return I.app("std::default::Default::default", [], t)


@model("default")
def _default(I, path, ga, args, rty, e):
    return default_of(I, rty, e)


@model("new")
def _new(I, path, ga, args, rty, e):
    if "boxed::Box" in path or "rc::Rc" in path or "sync::Arc" in path:
        return args[0]
    if "RefCell" in path or "cell::Cell" in path:
        return Struct(rty[1], {"value": args[0]})
    if "RangeInclusive" in path:
        return Struct(rty[1], {"start": args[0], "end": args[1]})
    if "vec::Vec" in path:
        return Lst([])
    if path.endswith("String::new"):
        return mk_leaf(StrV(""))
    if "nalgebra" in path and not path.startswith("ode_solvers"):
        m = I.matrix_shape(rty) if rty[0] == "adt" else None
        if m and isinstance(m[0], int) and len(args) == m[0] * m[1]:
            # nalgebra's Matrix::new takes rows first
            return Mat(m[0], m[1], {(k // m[1], k % m[1]): I.deref(a) for k, a in enumerate(args)}, ZERO)
    if "Dopri5" in path or "Dop853" in path:
        I.event("call", callee=path, path=path, args=[I.freeze(a) for a in args], raw=list(args), site=I.site(e),
                state=I.st)
        names = ("f", "x", "x_end", "dx", "y", "rtol", "atol")
        return Struct(rty[1], dict(zip(names, args)))
    if "fmt::" in path:
        return formatted(I, path, args, rty)
    return NotImplemented


# --- ODE solver
def _ode(I, a):
    v = I.deref(a)
    return v if isinstance(v, Struct) and "x_end" in v.fields else None


def ode_system(I, f):
    """(body id, substitution) of the callback the solver integrates"""
    v = I.deref(f)
    if not isinstance(v, Struct):
        return None
    for tr, ims in I.p.impl_by_trait.items():
        d = I.p.defs.get(tr, {})
        if d.get("path", "").startswith("ode_solvers") and d.get("name") == "System":
            for im in ims:
                t = I.p.ty(im["self"])
                if t[0] == "adt" and t[1] == v.adt:
                    for it in im["_items"].values():
                        if it["name"] == "system":
                            return it["id"]
    return None


@model("integrate")
def _integrate(I, path, ga, args, rty, e):
    from .interp import Place
    o = _ode(I, args[0])
    if o is None:
        return NotImplemented
    fo = I.freeze(o)
    res = I.app("ode.integrate", [fo], rty)
    I.event("call", callee=path, path="ode.integrate", args=[fo], site=I.site(e), result=res)
    sysid = ode_system(I, o.fields["f"])
    if sysid is not None and sysid in I.p.bodies:
        pl = I.deref_place(args[0])
        fr = mk_leaf(Ref(pl.cell, pl.path + ("f",)))
        ident = app_atom("ode.run", (fo,))

        def run(i):
            t = num_atom(app_atom("ode.ti", (ident, i)))
            y = I.havoc_like(o.fields["y"], app_atom("ode.yi", (ident, i)))
            dy = I.havoc_like(o.fields["y"], app_atom("ode.dyi", (ident, i)))
            ro = I.ref(dy)
            I.call_def(sysid, (), [fr, t, I.ref(y), ro], ("tuple", ()), e)
            if not I.st.dead:
                I.event("ode.rhs", t=t, y=y, dy=I.freeze(ro), fo=fo, site=I.site(e))

        n = num_atom(app_atom("ode.calls", (ident,), True))
        I.odeloops = getattr(I, "odeloops", {})
        I.odeloops[I.uid + 1] = fo
        T.NONNEG.add(next(iter(n.leaf.num))[0][0])
        I.loop(n, run, [], e)
    return res


@model("x_out", "y_out")
def _out(I, path, ga, args, rty, e):
    o = _ode(I, args[0])
    if o is None:
        return NotImplemented
    fo = I.freeze(o)
    n = num_atom(app_atom("ode.len", (fo.fields["x"], fo.fields["x_end"], fo.fields["dx"]), True))
    if path.endswith("x_out"):
        xa = (fo.fields["x"], fo.fields["x_end"], fo.fields["dx"])
        return I.ref(OSeq(app_atom("ode.x", xa), lambda at, i: ode_x(at.args + (i,)), n))
    a = app_atom("ode.y", (fo,))

    def mk2(at, i):
        y0 = at.args[0].fields["y"]
        return Mat(y0.rows, y0.cols, {(r, c): ode_y((at.args[0], r, c, i))
                                      for r in range(y0.rows) for c in range(y0.cols)}, ZERO)
    if not isinstance(fo.fields["y"], Mat):
        return NotImplemented
    return I.ref(OSeq(a, mk2, n))


def ode_x(args):
    """i-th output abscissa; the solver emits the initial point first"""
    i = args[3]
    if i is ZERO:
        return args[0]
    if i.var is not None:
        return dmap(lambda l: ode_x(args[:3] + (mk_leaf(l),)), i)
    return num_atom(app_atom("ode.xi", args))


def ode_y(args):
    """component (r, c) of the i-th output state"""
    fo, r, c, i = args
    if i is ZERO:
        return fo.fields["y"].get(r, c)
    if i.var is not None:
        return dmap(lambda l: ode_y((fo, r, c, mk_leaf(l))), i)
    return num_atom(app_atom("ode.yc", args))


REBUILD["ode.xi"] = lambda a, args: ode_x(args)
REBUILD["ode.yc"] = lambda a, args: ode_y(args)


# --- conversions
@model("from")
def _from(I, path, ga, args, rty, e):
    if not path.startswith("std::convert::From"):
        return NotImplemented
    sty = ga[1] if len(ga) > 1 else ("other", "?")
    if len(ga) >= 2 and ga[0] is not None and ga[0][0] not in ("param", "alias", "other"):
        rty = ga[0]
    if sty[0] in ("int", "float", "bool") and rty[0] in ("int", "float"):
        v = I.deref(args[0])
        if is_bool(v):
            return ite(v, ONE, ZERO)
        return narrowed(v, sty, rty) if is_num(v) else v
    return convert(I, args[0], sty, rty, e)


@model("into")
def _into(I, path, ga, args, rty, e):
    if len(ga) >= 2 and ga[1] is not None and ga[1][0] not in ("param", "alias", "other"):
        rty = ga[1]  # the conversion may be passed on as a function, whose call does not show the type
    return convert(I, args[0], ga[0] if ga else ("other", "?"), rty, e)


@model("try_from", "try_into")
def _tryfrom(I, path, ga, args, rty, e):
    if args and is_float(I, args[0]):
        a = I.freeze(args[0])
        c = bool_atom("fits", (a,), (key(a), str(rty)))
        return vite(c, I.Ok(I.deref(args[0])), I.Err(mk_leaf(Opq(app_atom("convErr", (a,)), ("other", "err")))))
    return NotImplemented


@model("from_residual")
def _from_res(I, path, ga, args, rty, e):
    v = I.deref(args[0])

    def f(l):
        if isinstance(l, Enum) and l.variant == "Err":
            x = l.fields["0"]
            # error conversion through a local From impl, when there is one
            if rty[0] == "adt" and rty[1] == I.RES:
                dst = rty[2][1]
                sty = None
                if len(ga) > 1 and ga[1][0] == "adt" and ga[1][1] == I.RES:
                    sty = ga[1][2][1]
                if sty is not None and sty != dst:
                    x = convert(I, x, sty, dst, e)
            return I.Err(x)
        if isinstance(l, Enum) and l.variant == "None":
            return I.None_()
        return mk_leaf(l)

    return I.dmap_val(f, v)


@model("from_output")
def _from_out(I, path, ga, args, rty, e):
    if rty[0] == "adt" and rty[1] == I.RES:
        return I.Ok(args[0])
    return I.Some(args[0])


@model("branch")
def _try_branch(I, path, ga, args, rty, e):
    v = I.deref(args[0])
    CF = I.CF or "ControlFlow"

    def f(l):
        if isinstance(l, Enum):
            if l.variant in ("Ok", "Some"):
                return mk_leaf(Enum(CF, "Continue", {"0": l.fields["0"]}))
            return mk_leaf(Enum(CF, "Break", {"0": mk_leaf(l)}))
        from .interp import Unsupported
        raise Unsupported("? on %r" % (l,))

    return I.dmap_val(f, v)


# --- option / result combinators
@model("expect", "unwrap")
def _expect(I, path, ga, args, rty, e):
    v = I.deref(args[0])
    return want(I, v, "Ok" if "Result" in path else "Some", path, e)


@model("expect_err", "unwrap_err")
def _expect_err(I, path, ga, args, rty, e):
    return want(I, I.deref(args[0]), "Err", path, e)


@model("unwrap_unchecked")
def _unw_unch(I, path, ga, args, rty, e):
    v = I.deref(args[0])
    I.event("unsafe", callee=path, site=I.site(e))
    return I.variant_field(v, "Ok" if "Result" in path else "Some", "0")


@model("unwrap_or")
def _unwrap_or(I, path, ga, args, rty, e):
    return opt_match(I, args[0], lambda x: x, lambda _: args[1])


@model("unwrap_or_default")
def _unwrap_or_d(I, path, ga, args, rty, e):
    return opt_match(I, args[0], lambda x: x, lambda _: default_of(I, rty, e))


@model("unwrap_or_else")
def _unwrap_or_else(I, path, ga, args, rty, e):
    return opt_match(I, args[0], lambda x: x, lambda x: I.apply(args[1], [x] if x is not None else [], rty))


@model("map_err")
def _map_err(I, path, ga, args, rty, e):
    return opt_match(I, args[0], lambda x: I.Ok(x), lambda x: I.Err(I.apply(args[1], [x])))


@model("map_or")
def _map_or(I, path, ga, args, rty, e):
    return opt_match(I, args[0], lambda x: I.apply(args[2], [x], rty), lambda _: args[1])


@model("map_or_else")
def _map_or_else(I, path, ga, args, rty, e):
    return opt_match(I, args[0], lambda x: I.apply(args[2], [x], rty),
                     lambda x: I.apply(args[1], [x] if x is not None else [], rty))


@model("and_then")
def _and_then(I, path, ga, args, rty, e):
    res = _is_res(I, I.deref(args[0]))
    return opt_match(I, args[0], lambda x: I.apply(args[1], [x], rty),
                     lambda x: I.Err(x) if res else I.None_())


@model("or_else")
def _or_else(I, path, ga, args, rty, e):
    res = _is_res(I, I.deref(args[0]))
    return opt_match(I, args[0], lambda x: I.Ok(x) if res else I.Some(x),
                     lambda x: I.apply(args[1], [x] if res else [], rty))


def _optres(path):
    return "option::Option" in path or "result::Result" in path


@model("or")
def _or(I, path, ga, args, rty, e):
    if not _optres(path):
        return NotImplemented
    res = _is_res(I, I.deref(args[0]))
    return opt_match(I, args[0], lambda x: I.Ok(x) if res else I.Some(x), lambda _: args[1])


@model("and")
def _and(I, path, ga, args, rty, e):
    if not _optres(path):
        return NotImplemented
    res = _is_res(I, I.deref(args[0]))
    return opt_match(I, args[0], lambda x: args[1], lambda x: I.Err(x) if res else I.None_())


@model("is_some_and", "is_ok_and")
def _is_some_and(I, path, ga, args, rty, e):
    return opt_match(I, args[0], lambda x: I.apply(args[1], [x], rty), lambda _: FALSE)


@model("is_none_or")
def _is_none_or(I, path, ga, args, rty, e):
    return opt_match(I, args[0], lambda x: I.apply(args[1], [x], rty), lambda _: TRUE)


@model("filter")
def _filter(I, path, ga, args, rty, e):
    if not _optres(path):
        return NotImplemented

    def some(x):
        c = I.deref(I.apply(args[1], [I.ref(x)]))
        return vite(c, I.Some(x), I.None_())

    return opt_match(I, args[0], some, lambda _: I.None_())


@model("flatten")
def _flatten(I, path, ga, args, rty, e):
    if not _optres(path):
        return NotImplemented
    res = _is_res(I, I.deref(args[0]))
    return opt_match(I, args[0], lambda x: x, lambda x: I.Err(x) if res else I.None_())


@model("insert", "get_or_insert", "get_or_insert_with")
def _insert(I, path, ga, args, rty, e):
    if "option::Option" not in path:
        return NotImplemented
    pl = I.deref_place(args[0])
    nm = path.rsplit("::", 1)[-1]
    if nm == "insert":
        I.write(pl, I.Some(args[1]))
    else:
        c = I.is_variant(I.deref(args[0]), "Some")

        def put():
            I.write(pl, I.Some(args[1] if nm == "get_or_insert" else I.apply(args[1], [])))
            return UNIT

        I.branch(c, lambda: UNIT, put)
    return mk_leaf(Ref(pl.cell, pl.path + (("v", "Some", "0"),)))


@model("ok_or")
def _ok_or(I, path, ga, args, rty, e):
    return opt_match(I, args[0], lambda x: I.Ok(x), lambda _: I.Err(args[1]))


@model("ok_or_else")
def _ok_or_else(I, path, ga, args, rty, e):
    return opt_match(I, args[0], lambda x: I.Ok(x), lambda _: I.Err(I.apply(args[1], [])))


@model("ok")
def _ok(I, path, ga, args, rty, e):
    return opt_match(I, args[0], lambda x: I.Some(x), lambda _: I.None_())


@model("err")
def _err(I, path, ga, args, rty, e):
    return opt_match(I, args[0], lambda x: I.None_(), lambda x: I.Some(x))


@model("is_ok", "is_some")
def _is_ok(I, path, ga, args, rty, e):
    return I.is_variant(args[0], "Ok" if path.endswith("is_ok") else "Some")


@model("is_err", "is_none")
def _is_err(I, path, ga, args, rty, e):
    return I.is_variant(args[0], "Err" if path.endswith("is_err") else "None")


@model("context", "with_context")
def _context(I, path, ga, args, rty, e):
    msg = args[1]
    def bad(x):
        m = I.apply(msg, []) if path.endswith("with_context") else msg
        a = app_atom("anyhow", tuple(I.freeze(y) for y in ([m] + ([x] if x is not None else []))))
        return I.Err(mk_leaf(Opq(a, rty[2][1] if rty[0] == "adt" and len(rty[2]) > 1 else ("other", "err"))))
    return opt_match(I, args[0], lambda x: I.Ok(x), bad)


@model("format_err", "msg")
def _format_err(I, path, ga, args, rty, e):
    return I.app("anyhow", args, rty)


@model("from_str")
def _fstr(I, path, ga, args, rty, e):
    if "fmt::Arguments" in path:
        return args[0]
    return NotImplemented


@model("todo_default_msg", "unimplemented_default_msg")
def _todomsg(I, path, ga, args, rty, e):
    return mk_leaf(StrV("todo"))


def formatted(I, path, args, rty):
    """a formatting value; its parts stay available to rules about printed text"""
    fa = [I.freeze(a) for a in args]
    v = I.app("fmt" if path.endswith("::new") else path.rsplit("::", 1)[-1], fa, rty)
    l = v.leaf if isinstance(v, DD) and v.var is None else None
    if isinstance(l, Opq):
        I.texts[l.atom.id] = (path, fa)
    return v


@model("format", "new_debug", "new_display", "new_lower_exp", "new_upper_exp", "from_str_nonconst")
def _format(I, path, ga, args, rty, e):
    if "fmt::" not in path:
        return NotImplemented
    if path.endswith("from_str_nonconst"):
        return args[0]
    return formatted(I, path, args, rty)


@model("_print", "_eprint")
def _print(I, path, ga, args, rty, e):
    I.event("io", callee=path, site=I.site(e), args=[I.freeze(a) for a in args])
    return UNIT


# --- references and dereferencing
@model("deref", "deref_mut")
def _deref(I, path, ga, args, rty, e):
    a = args[0]
    pl = I.deref_place(a)
    v = I.read(pl)
    if isinstance(v, DD) and v.var is None and isinstance(v.leaf, Ref):
        return v
    return mk_leaf(Ref(pl.cell, pl.path))


@model("index", "index_mut")
def _index(I, path, ga, args, rty, e):
    pl = I.deref_place(args[0])
    v = I.read(pl)
    n = 0
    while isinstance(v, DD) and n < 4:
        n += 1
        u = unbox(v)
        if u is not v:
            v = u
            continue
        if v.var is None and isinstance(v.leaf, Ref):
            pl = I.deref_place(v)
            v = I.read(pl)
            continue
        break
    i = I.deref(args[1])
    if isinstance(i, Tup):
        if isinstance(v, Mat):
            mat_bounds(I, v, I.deref(i.items[0]), I.deref(i.items[1]), e)
        return mk_leaf(Ref(pl.cell, pl.path + (("ij", I.deref(i.items[0]), I.deref(i.items[1])),)))
    if isinstance(i, Struct):
        # range indexing: a sub-slice
        p = I.apath(i.adt)
        if isinstance(v, Seq):
            lo = i.fields.get("start", ZERO)
            hi = i.fields.get("end", v.length())
            if "Inclusive" in p and "end" in i.fields:
                hi = add(hi, ONE)
            for c in (lt(v.length(), hi), lt(hi, lo)):
                c = restrict(c, I.st.guard)
                if c is not FALSE:
                    I.event("index", cond=c, index=hi, len=v.length(), site=I.site(e))
            if lo is ZERO and hi is v.length():
                return mk_leaf(Ref(pl.cell, pl.path))
            b = fresh_bound("s")
            return I.ref(Comp(sub(hi, lo), b, v.elem(add(lo, num_atom(b)))))
        if not i.fields:
            return mk_leaf(Ref(pl.cell, pl.path))
        return NotImplemented
    if isinstance(v, (Seq, Mat)):
        if isinstance(v, Seq):
            I.bounds(v, i, e)
        else:
            k = I.const_int(i)
            if k is not None and not 0 <= k < v.rows * v.cols:
                I.event("index", cond=TRUE, index=i, len=num(v.rows * v.cols), site=I.site(e))
        return mk_leaf(Ref(pl.cell, pl.path + (("i", i),)))
    return NotImplemented


def mat_bounds(I, m, i, j, e):
    for x, n in ((i, m.rows), (j, m.cols)):
        k = I.const_int(x)
        if k is not None and not 0 <= k < n:
            I.event("index", cond=TRUE, index=x, len=num(n), site=I.site(e))


@model("get")
def _get(I, path, ga, args, rty, e):
    if "cell::Cell" in path:
        return I.read(I.deref_place(args[0]).ext("value"))
    v = I.deref(args[0])
    i = I.deref(args[1]) if len(args) > 1 else None
    if isinstance(v, Seq) and isinstance(i, DD):
        c = lt(i, v.length())
        x = v.elem(i)
        if x is None:
            return I.None_()
        return vite(c, I.Some(I.ref(x)), I.None_())
    return NotImplemented


@model("len", "nrows", "count")
def _len(I, path, ga, args, rty, e):
    it = as_iter(I, args[0])
    if it is not None:
        n = rest(I, it).length(I)
        if path.endswith("count"):
            drain(I, it, e)
        return n
    v = I.deref(args[0])
    if isinstance(v, Mat):
        return num(v.rows if path.endswith("nrows") else v.rows * v.cols)
    if isinstance(v, Seq):
        return v.length()
    return NotImplemented


@model("ncols")
def _ncols(I, path, ga, args, rty, e):
    v = I.deref(args[0])
    return num(v.cols) if isinstance(v, Mat) else ONE if isinstance(v, Seq) else NotImplemented


@model("is_empty")
def _is_empty(I, path, ga, args, rty, e):
    v = I.deref(args[0])
    if isinstance(v, Seq):
        return eq(v.length(), ZERO)
    return NotImplemented


@model("first", "last")
def _firstlast(I, path, ga, args, rty, e):
    it = as_iter(I, args[0])
    nm = path.rsplit("::", 1)[-1]
    if it is not None:
        s = drain(I, it, e)
        return _opt_nonempty(I, s, lambda: s.elem(ZERO if nm == "first" else sub(s.length(), ONE)))
    pl = I.deref_place(args[0])
    v = I.deref(args[0])
    if isinstance(v, Seq):
        n = v.length()
        c = lt(ZERO, n)
        if c is FALSE:
            return I.None_()
        i = ZERO if nm == "first" else sub(n, ONE)
        return vite(c, I.Some(I.ref(I.index_value(v, i))), I.None_())
    return NotImplemented


@model("split_first", "split_last")
def _split(I, path, ga, args, rty, e):
    v = I.deref(args[0])
    if not isinstance(v, Seq):
        return NotImplemented
    n = v.length()
    c = lt(ZERO, n)
    if c is FALSE:
        return I.None_()
    b = fresh_bound("s")
    if path.endswith("first"):
        t = Tup([I.ref(v.elem(ZERO)), I.ref(Comp(sub(n, ONE), b, v.elem(add(ONE, num_atom(b)))))])
    else:
        t = Tup([I.ref(v.elem(sub(n, ONE))), I.ref(Comp(sub(n, ONE), b, v.elem(num_atom(b))))])
    return vite(c, I.Some(t), I.None_())


# --- vectors
@model("with_capacity")
def _with_cap(I, path, ga, args, rty, e):
    return Lst([]) if "Vec" in path else NotImplemented


@model("reserve", "shrink_to_fit")
def _reserve(I, path, ga, args, rty, e):
    return UNIT


@model("push_str", "write_str")
def _push_str(I, path, ga, args, rty, e):
    pl = I.deref_place(args[0])
    v = I.read(pl)
    if not is_text(I, v):
        return NotImplemented
    I.write(pl, text_cat(I, v, args[1]))
    return UNIT if path.endswith("push_str") else I.Ok(UNIT)


@model("write_fmt")
def _write_fmt(I, path, ga, args, rty, e):
    try:
        pl = I.deref_place(args[0])
        v = I.read(pl)
    except Unsupported:
        return NotImplemented
    if is_text(I, v):
        I.write(pl, text_cat(I, v, args[1]))
        return I.Ok(UNIT)
    if path == "std::io::Write::write_fmt":
        # the standard streams accept what is written to them
        t = ga[0] if ga else None
        while t and t[0] == "ref":
            t = t[1]
        n = I.apath(t[1]) if t and t[0] == "adt" else ""
        if n.startswith("std::io::"):
            I.event("io", callee="std::io::_eprint" if "Stderr" in n else "std::io::_print", site=I.site(e),
                    args=[I.freeze(args[1])])
            return I.Ok(UNIT)
    return NotImplemented


@model("push", "push_back")
def _push(I, path, ga, args, rty, e):
    pl = I.deref_place(args[0])
    v = I.read(pl)
    if is_text(I, v):
        c = I.deref(args[1])
        k = I.const_int(c) if isinstance(c, DD) else None
        if k is None:
            return NotImplemented
        I.write(pl, text_cat(I, v, mk_leaf(StrV(chr(k)))))
        return UNIT
    if isinstance(v, DD):
        v = unbox(v)
    if not isinstance(v, Seq):
        return NotImplemented
    I.write(pl, mk_cat([v, Lst([args[1]])]))
    return UNIT


@model("extend", "extend_from_slice", "append")
def _extend(I, path, ga, args, rty, e):
    pl = I.deref_place(args[0])
    v = I.read(pl)
    if not isinstance(v, Seq):
        return NotImplemented
    it = into_iter(I, args[1], e)
    s = drain(I, it, e)
    I.write(pl, mk_cat([I.read(pl), s]))
    return UNIT


@model("clear")
def _clear(I, path, ga, args, rty, e):
    pl = I.deref_place(args[0])
    I.write(pl, Lst([]))
    return UNIT


@model("to_vec", "into_vec", "into_boxed_slice", "as_vec")
def _to_vec(I, path, ga, args, rty, e):
    return I.deref(args[0])


@model("from_elem")
def _from_elem(I, path, ga, args, rty, e):
    n = I.deref(args[1])
    k = I.const_int(n)
    if k is not None and k <= 64:
        return Lst([args[0]] * k)
    b = fresh_bound("r")
    return Comp(n, b, args[0])


@model("resize")
def _resize(I, path, ga, args, rty, e):
    pl = I.deref_place(args[0])
    v = I.read(pl)
    if isinstance(v, Lst) and not v.items:
        I.write(pl, _from_elem(I, path, ga, [args[2], args[1]], rty, e))
        return UNIT
    return NotImplemented


@model("box_new", "box_assume_init_into_vec_unsafe", "write_box_via_move")
def _boxvec(I, path, ga, args, rty, e):
    return args[-1] if args else NotImplemented


# --- nalgebra
def _shape(I, rty):
    return I.matrix_shape(rty) if rty[0] == "adt" and I.apath(rty[1]) == "nalgebra::Matrix" else None


@model("zeros", "zeros_generic")
def _zeros(I, path, ga, args, rty, e):
    m = _shape(I, rty)
    if m and isinstance(m[0], int):
        return Mat(m[0], m[1], {}, ZERO)
    if m and args:
        b = fresh_bound("z")
        return Comp(I.deref(args[0]), b, ZERO)
    return NotImplemented


@model("identity")
def _identity(I, path, ga, args, rty, e):
    m = _shape(I, rty)
    if m and isinstance(m[0], int):
        return Mat(m[0], m[1], {(i, i): ONE for i in range(min(m))}, ZERO)
    return args[0] if args else NotImplemented


@model("repeat_n")
def _repeat_n(I, path, ga, args, rty, e):
    return _iter(TakeStream(RepeatStream(args[0]), I.deref(args[1])))


@model("from_element", "repeat")
def _from_element(I, path, ga, args, rty, e):
    m = _shape(I, rty)
    if m is None:
        if path.startswith("str::") or "str::<impl str>" in path or path.startswith("std::str"):
            s, k = I.deref(args[0]), I.const_int(I.deref(args[1]))
            l = s.leaf if isinstance(s, DD) and s.var is None else None
            if isinstance(l, StrV) and k is not None:
                return mk_leaf(StrV(l.s * k))
        if "iter::repeat" in path:
            return _iter(RepeatStream(args[0]))
        if "array" in path:
            return NotImplemented
        return NotImplemented
    if m[0] == "dyn":
        n = I.deref(args[0])
        b = fresh_bound("r")
        return Comp(n, b, I.deref(args[-1]))
    return Mat(m[0], m[1], {(i, j): I.deref(args[-1]) for i in range(m[0]) for j in range(m[1])}, ZERO)


@model("from_row_slice", "from_column_slice", "from_vec", "from_iterator", "from_row_iterator", "from_fn",
       "from_array_storage", "from_iter")
def _from_slice(I, path, ga, args, rty, e):
    nm = path.rsplit("::", 1)[-1]
    if nm == "from_fn" and "iter::" in path:
        return _iter(FnStream(args[0]))
    m = _shape(I, rty)
    if m is None:
        if nm == "from_iter":
            it = into_iter(I, args[0], e)
            return _collect_into(I, it, rty, e)
        if nm == "from_fn" and rty[0] == "array":
            n = int(rty[2]) if str(rty[2]).isdigit() else None
            if n is not None and n <= 64:
                return Lst([I.apply(args[0], [num(i)]) for i in range(n)])
        return NotImplemented
    if m[0] == "dyn":
        if nm in ("from_iterator", "from_row_iterator"):
            return drain(I, into_iter(I, args[1], e), e)
        if nm == "from_fn":
            n = I.deref(args[0])
            it = _iter(MapStream(RangeStream(ZERO, n), PyF2(I, args[1])))
            return drain(I, it, e)
        return I.deref(args[0])
    if nm == "from_fn":
        return Mat(m[0], m[1], {(i, j): I.apply(args[0], [num(i), num(j)])
                                for i in range(m[0]) for j in range(m[1])}, ZERO)
    s = I.deref(args[0])
    if nm in ("from_iterator", "from_row_iterator"):
        s = drain(I, into_iter(I, args[0], e), e)
    if not isinstance(s, Seq):
        return NotImplemented
    r, c = m
    if "row" in nm:
        return Mat(r, c, {(i, j): I.index_value(s, num(i * c + j)) for i in range(r) for j in range(c)}, ZERO)
    return Mat(r, c, {(i, j): I.index_value(s, num(i + j * r)) for i in range(r) for j in range(c)}, ZERO)


def PyF2(I, f):
    from .interp import PyFn
    return mk_leaf(PyFn(lambda I2, i: I2.apply(f, [i, ZERO]), "from_fn%d" % id(f)))


@model("component_div", "component_mul")
def _comp(I, path, ga, args, rty, e):
    a, b = I.deref(args[0]), I.deref(args[1])
    same_shape(I, a, b, e)
    return elementwise("div" if path.endswith("div") else "mul", a, b)


@model("component_div_assign", "component_mul_assign")
def _compa(I, path, ga, args, rty, e):
    pl = I.deref_place(args[0])
    same_shape(I, I.read(pl), I.deref(args[1]), e)
    I.write(pl, elementwise("div" if "div" in path else "mul", I.read(pl), I.deref(args[1])))
    return UNIT


@model("scale", "unscale", "add_scalar")
def _scale(I, path, ga, args, rty, e):
    op = {"scale": "mul", "unscale": "div", "add_scalar": "add"}[path.rsplit("::", 1)[-1]]
    return elementwise(op, I.deref(args[0]), I.deref(args[1]))


@model("dot")
def _dot(I, path, ga, args, rty, e):
    a, b = I.deref(args[0]), I.deref(args[1])
    if isinstance(a, Mat):
        return total(mul(x, y) for x, y in zip(mat_seq(a).items, mat_seq(b).items))
    return seq_sum(elementwise("mul", a, b))


@model("zip_map")
def _zip_map(I, path, ga, args, rty, e):
    a, b = I.deref(args[0]), I.deref(args[1])
    if isinstance(a, Seq) and isinstance(b, Seq):
        it = _iter(MapStream(ZipStream(SeqStream(a, "val"), SeqStream(b, "val")), args[2]))
        st = ZipStream(SeqStream(a, "val"), SeqStream(b, "val"))
        return drain(I, _iter(st), e, lambda t: I.freeze(I.apply(args[2], t.items)))
    return NotImplemented


@model("row", "column")
def _rowcol(I, path, ga, args, rty, e):
    m, i = I.deref(args[0]), I.const_int(I.deref(args[1]))
    if isinstance(m, Mat) and i is not None:
        if path.endswith("row"):
            return Mat(1, m.cols, {(0, j): m.get(i, j) for j in range(m.cols)}, ZERO)
        return Mat(m.rows, 1, {(j, 0): m.get(j, i) for j in range(m.rows)}, ZERO)
    return NotImplemented


@model("fill")
def _fill(I, path, ga, args, rty, e):
    pl = I.deref_place(args[0])
    v = I.read(pl)
    x = I.deref(args[1])
    if isinstance(v, Mat):
        I.write(pl, Mat(v.rows, v.cols, {(i, j): x for i in range(v.rows) for j in range(v.cols)}, ZERO)
                if isinstance(v.rows, int) else Mat(v.rows, v.cols, {}, x))
        return UNIT
    if isinstance(v, Seq):
        b = fresh_bound()
        I.write(pl, Comp(v.length(), b, x))
        return UNIT
    return NotImplemented


@model("transpose")
def _transpose(I, path, ga, args, rty, e):
    m = I.deref(args[0])
    if isinstance(m, Mat):
        return Mat(m.cols, m.rows, {(j, i): m.get(i, j) for i in range(m.rows) for j in range(m.cols)}, ZERO)
    return NotImplemented


# --- iterators
def as_iter(I, v):
    from .interp import Iter
    n = 0
    while isinstance(v, DD) and v.var is None and isinstance(v.leaf, Ref) and n < 4:
        v = I.read(I.deref_place(v))
        n += 1
    if isinstance(v, Iter):
        return v
    if isinstance(v, Struct) and v.adt is not None:
        s = _range_stream(I, v)
        if s:
            return _iter(s)
    return None


def need_iter(I, v, e):
    it = as_iter(I, v)
    return it if it is not None else into_iter(I, v, e)


@model("iter", "into_iter", "iter_mut")
def _iterm(I, path, ga, args, rty, e):
    nm = path.rsplit("::", 1)[-1]
    it = as_iter(I, args[0])
    if it is not None:
        return it
    it = into_iter(I, args[0], e)
    if isinstance(it.st, SeqStream):
        if nm == "iter_mut":
            return _iter(SeqStream(it.st.v, "mut", it.st.place))
        if nm == "iter" and it.st.mode == "val":
            return _iter(SeqStream(it.st.v, "ref", it.st.place))
        if nm == "into_iter" and it.st.mode == "ref" and it.st.place is not None:
            t = ga[0] if ga else None
            if t and t[0] == "ref" and t[2]:
                return _iter(SeqStream(it.st.v, "mut", it.st.place))
    return it


def map_any(I, path, ga, args, rty, e):
    v = args[0]
    it = as_iter(I, v)
    if it is not None:
        return _iter(MapStream(rest(I, it), args[1]))
    v = I.deref(v)
    if isinstance(v, Mat):
        return Mat(v.rows, v.cols, {(i, j): I.deref(I.apply(args[1], [v.get(i, j)])) for i in range(v.rows)
                                    for j in range(v.cols)}, ZERO)
    if isinstance(v, Lst):
        return Lst([I.apply(args[1], [x]) for x in v.items])
    if isinstance(v, Seq):
        return drain(I, _iter(MapStream(SeqStream(v, "val"), args[1])), e)
    if isinstance(v, DD):
        res = _is_res(I, v)
        return opt_match(I, v, lambda x: I.Ok(I.apply(args[1], [x])) if res else I.Some(I.apply(args[1], [x])),
                         lambda x: I.Err(x) if res else I.None_())
    return NotImplemented


HANDLERS["map"] = map_any


@model("inspect")
def _inspect(I, path, ga, args, rty, e):
    it = as_iter(I, args[0])
    return _iter(InspectStream(rest(I, it), args[1])) if it is not None else NotImplemented


@model("enumerate")
def _enum(I, path, ga, args, rty, e):
    return _iter(EnumerateStream(rest(I, need_iter(I, args[0], e))))


@model("zip", "zip_eq", "izip")
def _zip(I, path, ga, args, rty, e):
    return _iter(ZipStream(rest(I, need_iter(I, args[0], e)), rest(I, need_iter(I, args[1], e))))


@model("tuple_windows")
def _tw(I, path, ga, args, rty, e):
    it = need_iter(I, args[0], e)
    k = 2
    for g in ga:
        if g[0] == "tuple":
            k = len(g[1])
    return _iter(WindowStream(rest(I, it), k, True))


@model("windows", "array_windows")
def _windows(I, path, ga, args, rty, e):
    v = I.deref(args[0])
    if path.endswith("array_windows"):
        k = 2
    else:
        k = I.const_int(I.deref(args[1]))
    if isinstance(v, Seq) and k:
        return _iter(WindowStream(SeqStream(v, "val"), k, False))
    return NotImplemented


@model("skip")
def _skip(I, path, ga, args, rty, e):
    return _iter(SkipStream(rest(I, need_iter(I, args[0], e)), I.deref(args[1])))


@model("rev")
def _rev(I, path, ga, args, rty, e):
    return _iter(RevStream(rest(I, need_iter(I, args[0], e))))


@model("chain")
def _chain(I, path, ga, args, rty, e):
    return _iter(ChainStream(rest(I, need_iter(I, args[0], e)), rest(I, need_iter(I, args[1], e))))


@model("peekable", "fuse")
def _fuse(I, path, ga, args, rty, e):
    it = as_iter(I, args[0])
    return it if it is not None and path.endswith("fuse") else NotImplemented


def _collect_into(I, it, rty, e):
    if rty[0] == "adt" and I.apath(rty[1]) in ("std::result::Result", "std::option::Option"):
        r = drain_fallible(I, it, e, rty)
        if r is not None:
            return r
    s = drain(I, it, e)
    if rty[0] == "adt":
        p = I.apath(rty[1])
        if p in ("std::result::Result", "std::option::Option"):
            return _collect_fallible(I, s, rty, e)
        if p not in ("std::vec::Vec", "std::boxed::Box", "std::collections::VecDeque", "nalgebra::Matrix"):
            return I.app("collect:" + p, [s], rty)
    return s


def _collect_fallible(I, s, rty, e):
    yes = "Ok" if rty[1] == I.RES else "Some"
    if isinstance(s, Lst):
        ok = ball(I.is_variant(x, yes) for x in s.items)
        vals = Lst([I.variant_field(x, yes, "0") for x in s.items])
        bad = None
        for x in reversed(s.items):
            err = I.Err(I.variant_field(x, "Err", "0")) if yes == "Ok" and I.variant_field(x, "Err", "0") is not None else I.None_()
            bad = err if bad is None else vite(I.is_variant(x, yes), bad, err)
    else:
        n, b, body = seq_body(s)
        k = key(Comp(n, b, body))
        fs = Comp(n, b, body)
        c = I.is_variant(body, yes)
        if c is TRUE:
            ok = TRUE
        else:
            ok = bool_atom("allok", (fs,), (k,))
        vals = Comp(n, b, I.variant_field(body, yes, "0"))
        if yes == "Ok":
            bad = I.Err(mk_leaf(Opq(app_atom("firsterr", (fs,)), ("other", "err"))))
        else:
            bad = I.None_()
    good = I.Ok(vals) if yes == "Ok" else I.Some(vals)
    return vite(ok, good, bad)


@model("collect", "collect_vec", "collect_array")
def _collect(I, path, ga, args, rty, e):
    return _collect_into(I, need_iter(I, args[0], e), rty, e)


@model("sum")
def _sum(I, path, ga, args, rty, e):
    it = as_iter(I, args[0])
    if it is None:
        v = I.deref(args[0])
        if isinstance(v, Mat):
            return seq_sum(mat_seq(v))
        if isinstance(v, Seq):
            return seq_sum(v)
        return NotImplemented
    s = drain(I, it, e)
    if isinstance(s, Lst):
        s = Lst([I.deref(x) for x in s.items])
    return seq_sum(s)


@model("product")
def _product(I, path, ga, args, rty, e):
    it = as_iter(I, args[0])
    if it is None:
        return NotImplemented
    s = drain(I, it, e)
    if isinstance(s, Lst):
        r = ONE
        for x in s.items:
            r = mul(r, I.deref(x))
        return r
    return I.app("product", [s], rty)


@model("mean")
def _mean(I, path, ga, args, rty, e):
    v = I.deref(args[0])
    if isinstance(v, Seq):
        return div(seq_sum(v), v.length())
    return NotImplemented


@model("for_each")
def _for_each(I, path, ga, args, rty, e):
    it = need_iter(I, args[0], e)

    def f(x):
        I.apply(args[1], [x])
        return UNIT
    drain(I, it, e, f)
    return UNIT


@model("fold", "rfold")
def _fold(I, path, ga, args, rty, e):
    it = as_iter(I, args[0])
    if it is None:
        v = I.deref(args[0])
        if isinstance(v, Seq):
            it = _iter(SeqStream(v, "val"))
        else:
            return NotImplemented
    if path.endswith("rfold"):
        it = _iter(RevStream(rest(I, it)))
    cell = I.new_cell(I.deref(args[1]) if is_float(I, args[1]) else args[1])
    from .interp import Place

    def f(x):
        r = I.apply(args[2], [I.read(Place(cell)), x])
        if not I.st.dead:
            I.write(Place(cell), r)
        return UNIT
    drain(I, it, e, f)
    return I.read(Place(cell)) if not I.st.dead else UNIT


@model("try_fold", "try_for_each")
def _try_fold(I, path, ga, args, rty, e):
    it = as_iter(I, args[0])
    if it is None or rty[0] != "adt":
        return NotImplemented
    from .interp import Place
    fold = path.endswith("try_fold")
    cell = I.new_cell(args[1] if fold else UNIT)
    f = args[-1]
    p = I.apath(rty[1])
    on = "Ok" if rty[1] == I.RES else "Continue" if p.endswith("ControlFlow") else "Some" if p.endswith("Option") else None
    if on is None:
        return NotImplemented

    def body(x, i, stop):
        r = I.deref(I.apply(f, [I.read(Place(cell)), x] if fold else [x]))
        if I.st.dead:
            return

        def go():
            I.write(Place(cell), I.variant_field(r, on, "0"))
            return UNIT

        c = I.is_variant(r, on)
        I.branch(c, go, lambda: stop(restrict_val(r, bnot(c))))

    def done():
        v = I.read(Place(cell))
        return I.Ok(v) if on == "Ok" else I.Some(v) if on == "Some" else mk_leaf(Enum(rty[1], "Continue", {"0": v}))

    return drain_until(I, it, e, body, done)


def restrict_val(v, c):
    return restrict(v, c) if isinstance(v, DD) else v


@model("find_map", "find", "position")
def _find(I, path, ga, args, rty, e):
    it = as_iter(I, args[0])
    if it is None:
        return NotImplemented
    nm = path.rsplit("::", 1)[-1]

    def body(x, i, stop):
        r = I.deref(I.apply(args[1], [I.ref(x) if nm == "find" else x]))
        if I.st.dead:
            return
        if nm == "find_map":
            c = I.is_variant(r, "Some")
            I.branch(c, lambda: stop(restrict_val(r, c)), lambda: UNIT)
        else:
            I.branch(r, lambda: stop(I.Some(x if nm == "find" else i)), lambda: UNIT)

    return drain_until(I, it, e, body, I.None_)


@model("unzip", "multiunzip")
def _unzip(I, path, ga, args, rty, e):
    s = drain(I, need_iter(I, args[0], e), e)
    if isinstance(s, Lst):
        k = len(rty[1])
        return Tup([Lst([x.items[j] for x in s.items]) for j in range(k)])
    n, b, body = seq_body(s)
    if not isinstance(body, Tup):
        return NotImplemented
    return Tup([Comp(n, b, x) for x in body.items])


def _opt_nonempty(I, s, f):
    n = s.length()
    c = lt(ZERO, n)
    if c is FALSE:
        return I.None_()
    return vite(c, I.Some(f()), I.None_())


@model("max_by", "min_by")
def _max_by(I, path, ga, args, rty, e):
    k = cmp_kind(I, args[1])
    s = drain(I, need_iter(I, args[0], e), e)
    if k == 0:
        return I.app(path, [s, args[1]], rty)
    ismax = path.rsplit("::", 1)[-1] == "max_by"
    kind = "maxover" if ismax == (k == 1) else "minover"
    return _opt_nonempty(I, s, lambda: I.ref(seq_over(kind, s)))


class Sorted(Seq):
    """the elements of a sequence in ascending (up) or descending order"""

    def __init__(self, base, up):
        self.base, self.up = base, up

    def length(self):
        return self.base.length()

    def elem(self, i):
        for k, at in (("minover" if self.up else "maxover", ZERO),
                      ("maxover" if self.up else "minover", sub(self.length(), ONE))):
            if i is at:
                return seq_over(k, self.base)
        return num_atom(mk_atom("sorted", (self.base, self.up, i), keyargs=self.skey() + (i.id,)))

    def skey(self):
        return ("sorted", key(self.base), self.up)

    def parts_(self):
        return [self.base]

    def subst_(self, sub):
        return Sorted(sub.v(self.base), self.up)


@model("sort_by", "sort_unstable_by", "sort", "sort_unstable")
def _sort(I, path, ga, args, rty, e):
    k = cmp_kind(I, args[1]) if len(args) > 1 else 1
    pl = I.deref_place(args[0])
    v = I.read(pl)
    if isinstance(v, DD):
        v = unbox(v)
    if k == 0 or not isinstance(v, Seq):
        return NotImplemented
    x = v.elem(sym(T.fresh_name("at")))
    if not (isinstance(x, DD) and is_num(x)):
        return NotImplemented
    I.write(pl, Sorted(v.base if isinstance(v, Sorted) else v, k == 1))
    return UNIT


@model("reduce")
def _reduce(I, path, ga, args, rty, e):
    s = drain(I, need_iter(I, args[0], e), e)
    a, b = sym(T.fresh_name("ra")), sym(T.fresh_name("rb"))
    st = I.st
    r = I.deref(I.apply(args[1], [a, b]))
    I.st = st
    if r is max2(a, b) or r is ite(gt(b, a), b, a) or r is ite(gt(a, b), a, b) or r is ite(ge(a, b), a, b):
        return _opt_nonempty(I, s, lambda: seq_over("maxover", s))
    if r is min2(a, b) or r is ite(lt(b, a), b, a) or r is ite(lt(a, b), a, b) or r is ite(le(a, b), a, b):
        return _opt_nonempty(I, s, lambda: seq_over("minover", s))
    if r is add(a, b):
        return _opt_nonempty(I, s, lambda: seq_sum(s))
    return NotImplemented


@model("nth")
def _nth(I, path, ga, args, rty, e):
    it = need_iter(I, args[0], e)
    st = rest(I, it)
    i = I.deref(args[1])
    c = lt(i, st.length(I))
    if c is FALSE:
        return I.None_()
    return vite(c, I.Some(st.get(I, i)), I.None_())


@model("next", "next_back")
def _next(I, path, ga, args, rty, e):
    if path.endswith("next_back"):
        return NotImplemented
    pl = I.deref_place(args[0])
    it = as_iter(I, args[0])
    if it is None:
        return NotImplemented
    if isinstance(it.st, FnStream):
        return I.apply(it.st.f, [])
    n = it.st.length(I)
    c = lt(it.pos, n)
    if isinstance(it.st, RangeStream):
        I.write(pl, it)

    def some():
        x = it.st.get(I, it.pos)
        I.write(pl, _iter(it.st, add(it.pos, ONE)))
        return I.Some(x)

    return I.branch(c, some, lambda: I.None_())


@model("all", "any")
def _allany(I, path, ga, args, rty, e):
    it = need_iter(I, args[0], e)
    s = drain(I, it, e, lambda x: I.deref(I.apply(args[1], [x])))
    isall = path.rsplit("::", 1)[-1] == "all"
    if isinstance(s, Lst):
        return ball(s.items) if isall else bany(s.items)
    n, b, body = seq_body(s)
    if body is TRUE or body is FALSE:
        if isall:
            return TRUE if body is TRUE else eq(n, ZERO)
        return FALSE if body is FALSE else lt(ZERO, n)
    c = Comp(n, b, body if isall else bnot(body))
    r = bool_atom("forall", (c,), (key(c),))
    return r if isall else bnot(r)


@model("partial_min", "partial_max")
def _pm(I, path, ga, args, rty, e):
    return NotImplemented


# --- closures
@model("call", "call_mut", "call_once")
def _callfn(I, path, ga, args, rty, e):
    if not path.startswith("std::ops::"):
        return NotImplemented
    a = args[1]
    items = a.items if isinstance(a, Tup) else [a]
    return I.apply(args[0], items, rty)


@model("then")
def _then(I, path, ga, args, rty, e):
    c = I.deref(args[0])
    if not (isinstance(c, DD) and is_bool(c)):
        return NotImplemented
    return I.branch(c, lambda: I.Some(I.apply(args[1], [])), lambda: I.None_())


@model("then_some")
def _then_some(I, path, ga, args, rty, e):
    c = I.deref(args[0])
    return vite(c, I.Some(args[1]), I.None_())


@model("discriminant_value", "discriminant")
def _discr(I, path, ga, args, rty, e):
    v = I.deref(args[0])
    if isinstance(v, DD) and all(isinstance(l, Enum) for _, l in leaves(v)):
        row = I.p.adts.get(leaves(v)[0][1].adt)
        if row:
            names = [x["name"] for x in row["variants"]]
            return dmap(lambda l: num(names.index(l.variant)), v)
    return NotImplemented


@model("contains")
def _contains(I, path, ga, args, rty, e):
    r = I.deref(args[0])
    x = I.deref(args[1])
    if isinstance(r, Struct) and "start" in r.fields and isinstance(x, DD):
        p = I.apath(r.adt)
        c = ge(x, r.fields["start"])
        if "end" in r.fields:
            c = band(c, (le if "Inclusive" in p else lt)(x, r.fields["end"]))
        return c
    return NotImplemented
