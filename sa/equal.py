"""Equality of values: canonical-form identity first, then random interpretation (Gulwani & Necula)
of the two *terms* as a second opinion, so that an algebraically equal but differently arranged
formula is never reported.  Nothing of the analysed program is executed here: what is evaluated is
the symbolic summary, with every uninterpreted symbol given a pseudo-random meaning."""
import hashlib
import mpmath
from .values import *
from . import term as T
from .interp import UpdN, PyFn, Iter

mpmath.mp.dps = 60
mpf, mpc = mpmath.mpf, mpmath.mpc


class Skip(Exception):
    pass


class Valuation:
    """a random interpretation of every uninterpreted symbol"""

    def __init__(self, seed, over=None, varied=None, cover=None):
        self.seed = seed
        self.cover = cover or {}
        self.varied = varied
        self.over = over or {}
        self.memo = {}
        self.cmemo = {}
        self.env = {}
        self.fixed = {}
        self.bvars = {}

    def h(self, *parts):
        s = hashlib.sha256(repr((self.seed,) + parts).encode()).digest()
        return int.from_bytes(s[:8], "big")

    def real(self, *parts):
        v = mpf(self.h(*parts) % (10 ** 12)) / mpf(10 ** 12) * 2 + mpf("0.25")
        # every second interpretation is signed; the others keep roots and logarithms defined
        return -v if self.seed & 1 and self.h("sign", *parts) & 1 else v

    def integer(self, *parts):
        return mpf(self.h(*parts) % 5 + 5)

    def tag(self, x):
        """hashable semantic identity of an argument"""
        if isinstance(x, DD):
            if is_num(x):
                v = self.num(x)
                return ("n", mpmath.nstr(v, 25))
            if is_bool(x):
                return ("b", self.boolean(x))
            l = self.leaf(x)
            return self.tag(l)
        if isinstance(x, Enum):
            return ("e", x.adt, x.variant) + tuple((k, self.tag(v)) for k, v in sorted(x.fields.items()))
        if isinstance(x, Opq):
            return ("o", self.atag(x.atom))
        if isinstance(x, Clo):
            return ("c", x.body) + tuple((k, self.tag(v)) for k, v in sorted(x.env.items()))
        if isinstance(x, Boxed):
            return self.tag(x.v)
        if isinstance(x, StrV):
            return ("s", x.s)
        if isinstance(x, FnV):
            return ("f", x.d, repr(x.ga))
        if isinstance(x, Struct):
            return ("S",) + tuple((k, self.tag(v)) for k, v in sorted(x.fields.items()))
        if isinstance(x, Tup):
            return ("T",) + tuple(self.tag(v) for v in x.items)
        if isinstance(x, Mat):
            return ("M", x.rows, x.cols) + tuple(
                self.tag(x.get(i, j) if x.get(i, j) is not None else ZERO)
                for i in range(x.rows) for j in range(x.cols))
        if isinstance(x, OSeq) and x.n is None:
            return ("q", self.atag(x.atom))
        if isinstance(x, Seq):
            n = self.num(x.length())
            i = mk_atom("sym", ("$probe",), True)
            old = self.fixed.get(i.id)
            e = x.elem(num_atom(i))
            r = ("Q", mpmath.nstr(n, 20))
            for q in sorted({mpf(0), mpf(2), n - 1}):
                if 0 <= q < n:
                    self.fixed[i.id] = q
                    self.bvars[i.id] = self.bvars.get(i.id, 0) + 1
                    sc, self.cmemo = self.cmemo, {}
                    r += (self.tag(e),)
                    self.cmemo = sc
                    self.bvars[i.id] -= 1
                    if not self.bvars[i.id]:
                        del self.bvars[i.id]
            if old is None:
                self.fixed.pop(i.id)
            else:
                self.fixed[i.id] = old
            return r
        if isinstance(x, Atom):
            return self.atag(x)
        if isinstance(x, (tuple, list)):
            return tuple(self.tag(y) for y in x)
        if x is None or isinstance(x, (str, int, bool)):
            return x
        return repr(key(x))

    def atag(self, a):
        if a.id in self.fixed:
            return ("x", str(self.fixed[a.id]))
        mk = ("t", self.mkey(a))
        r = self.memo.get(mk)
        if r is None:
            r = (a.kind,) + tuple(self.tag(x) for x in a.args)
            r = hashlib.sha256(repr(r).encode()).hexdigest()
            self.memo[mk] = r
        return r

    def atom(self, a):
        if a.id in self.fixed:
            return self.fixed[a.id]
        mk = self.mkey(a)
        r = self.memo.get(mk)
        if r is not None:
            if r is NONE:
                raise Skip()
            return r
        try:
            r = self.atom_(a)
        except (Skip, ZeroDivisionError, OverflowError, ValueError, KeyError):
            self.memo[mk] = NONE
            raise Skip()
        self.memo[mk] = r
        return r

    def mkey(self, a):
        """memo key: the atom and the values of the bound variables it depends on"""
        if not self.bvars:
            return a.id
        dep = atom_atoms(a) & self.bvars.keys()
        if not dep:
            return a.id
        return (a.id,) + tuple((b, int(self.fixed[b])) for b in sorted(dep))

    def atom_(self, a):
        k = a.kind
        if k == "pi":
            return mpmath.pi
        if k in ("sqrt", "sin", "cos", "exp", "ln", "abs", "tan", "tanh", "sinh", "cosh", "atan", "asin", "acos"):
            v = self.num(a.args[0])
            if k == "abs":
                if mpmath.im(v) != 0:
                    raise Skip()
                return abs(v)
            if k in ("ln", "sqrt") and (mpmath.im(v) != 0 or v <= 0):
                raise Skip()
            if k == "ln":
                return mpmath.log(v)
            return getattr(mpmath, k)(v)
        if k in ("max", "min"):
            f = max if k == "max" else min
            return f(self.num(a.args[0]), self.num(a.args[1]))
        if k in ("sum", "maxover", "minover"):
            n, b, body = a.args
            n = int(mpmath.nint(self.num(n)))
            if n > 60:
                raise Skip()
            old = self.fixed.get(b.id)
            vs = []
            self.bvars[b.id] = self.bvars.get(b.id, 0) + 1
            sc = self.cmemo
            for q in range(n):
                self.fixed[b.id] = mpf(q)
                self.cmemo = {}
                vs.append(self.num(body))
            self.cmemo = sc
            self.bvars[b.id] -= 1
            if not self.bvars[b.id]:
                del self.bvars[b.id]
            if old is None:
                self.fixed.pop(b.id, None)
            else:
                self.fixed[b.id] = old
            if k == "sum":
                return mpmath.fsum(vs)
            if not vs:
                raise Skip()
            return max(vs) if k == "maxover" else min(vs)
        if k == "inf":
            return mpf(10) ** 40
        args = tuple(self.tag(x) for x in a.args)
        if (k, args) in self.over:
            return self.over[k, args]
        if a.integer:
            return self.integer(k, args)
        if a.id in T.NONNEG or a.id in POSITIVE:
            return abs(self.real(k, args))
        return self.real(k, args)

    def rat(self, r):
        n = self.poly(r.num)
        if r.den == T.ONE_P:
            return n
        d = self.poly(r.den)
        if d == 0:
            raise Skip()
        return n / d

    def poly(self, p):
        s = mpf(0)
        for m, c in p.items():
            t = mpf(c.numerator) / c.denominator
            for x, e in m:
                v = self.atom(ATOMS[x])
                if e < 0 and v == 0:
                    raise Skip()
                t *= v ** e
            s += t
        return s

    def leaf(self, d):
        while d.var is not None:
            d = d.hi if self.cond(CONDS[d.var]) else d.lo
        return d.leaf

    def num(self, d):
        l = self.leaf(d)
        if not isinstance(l, Rat):
            raise Skip()
        return self.rat(l)

    def boolean(self, d):
        l = self.leaf(d)
        if isinstance(l, bool):
            return l
        raise Skip()

    def cond(self, c):
        if not self.bvars:
            r = self.cmemo.get(c.id)
            if r is not None:
                return r
        r = self.cond_(c)
        if not self.bvars:
            self.cmemo[c.id] = r
        return r

    def cond_(self, c):
        if c.kind in ("neg", "zero", "pos"):
            v = self.num(c.args[0])
            if mpmath.im(v) != 0:
                raise Skip()
            if abs(v) < mpf(10) ** -40:
                v = mpf(0)
            return v < 0 if c.kind == "neg" else v == 0 if c.kind == "zero" else v > 0
        if c.kind in ("is_infinite", "is_nan"):
            return False
        g = tuple(x.kind for x in c.group)
        args = tuple(self.tag(x) for x in c.args)
        if (g, args) in self.cover:
            return self.cover[g, args] == c.pos
        if len(g) == 1:
            return bool(self.h("bool", c.kind, args) & 1)
        k = self.h("grp", g, args) % (len(g) + 1)
        return k == c.pos


def close(x, y):
    if x == y:
        return True
    m = max(abs(x), abs(y), mpf(10) ** -30)
    return abs(x - y) / m < mpf(10) ** -22


POSITIVE = set()  # symbols of the rules' own making that stand for lengths
VALS = {}
EVAL = {}
NONE = object()


def valuation(s):
    v = VALS.get(s)
    if v is None:
        v = VALS[s] = Valuation(s)
    return v


def ev(d, s):
    """value of a (gated) scalar or boolean under random interpretation s; None where it is undefined"""
    k = (d.id, s)
    r = EVAL.get(k, NONE)
    if r is not NONE:
        return r
    r = EVAL[k] = ev_in(d, valuation(s))
    return r


def ev_in(d, v):
    sc = v.cmemo
    try:
        return v.boolean(d) if is_bool(d) else v.num(d)
    except (Skip, ZeroDivisionError, OverflowError, ValueError, KeyError):
        v.bvars, v.fixed, v.cmemo = {}, {}, sc
        return None


def tag_in(x, v):
    sc = v.cmemo
    try:
        return v.tag(x)
    except (Skip, ZeroDivisionError, OverflowError, ValueError, KeyError):
        v.bvars, v.fixed, v.cmemo = {}, {}, sc
        return None


# ---------------------------------------------------------------- directed interpretations
# A difference confined to one side of a switch (max, min, abs, a comparison) that occurs in only
# one of the two terms is invisible to interpretations that all fall on the other side.  For each
# such switch, one of the symbols it depends on is moved so that both sides, and the close
# neighbourhood of the switching point, are visited.
def switches(xs):
    """expressions whose sign decides a case in xs: {key: scalar}, atoms included"""
    out, seen = {}, set()
    st = list(xs)
    while st:
        x = st.pop()
        if isinstance(x, (str, int, bool, float)) or x is None or id(x) in seen:
            continue
        seen.add(id(x))
        if isinstance(x, DD):
            if x.var is None:
                st.append(x.leaf)
                continue
            c = CONDS[x.var]
            if c.kind in ("neg", "zero", "pos"):
                out[("c",) + tuple(id(a) for a in c.args)] = mk_leaf(c.args[0]) if isinstance(c.args[0], Rat) else c.args[0]
            st += [x.hi, x.lo]
            st += list(c.args)
        elif isinstance(x, Rat):
            for p in (x.num, x.den):
                for m in p:
                    for a, _ in m:
                        st.append(ATOMS[a])
        elif isinstance(x, Atom):
            if x.kind in ("max", "min") and len(x.args) == 2:
                p, q = [mk_leaf(y) if isinstance(y, Rat) else y for y in x.args]
                if isinstance(p, DD) and isinstance(q, DD):
                    out[("a", x.id)] = p - q
            elif x.kind == "abs":
                p = x.args[0]
                out[("a", x.id)] = mk_leaf(p) if isinstance(p, Rat) else p
            st += list(x.args)
        elif isinstance(x, Opq):
            st.append(x.atom)
        elif isinstance(x, (Enum, Struct)):
            st += list(x.fields.values())
        elif isinstance(x, Tup):
            st += list(x.items)
        elif isinstance(x, Boxed):
            st.append(x.v)
        elif isinstance(x, Clo):
            st += list(x.env.values())
        elif isinstance(x, Mat):
            st += [x.get(i, j) for i in range(x.rows) for j in range(x.cols)]
        elif isinstance(x, (tuple, list)):
            st += list(x)
    return out


INTERPRETED = {"pi", "sqrt", "sin", "cos", "exp", "ln", "abs", "tan", "tanh", "sinh", "cosh", "atan", "asin", "acos",
               "max", "min", "sum", "maxover", "minover", "inf"}


def inputs(d, cap=40):
    """uninterpreted symbols the value of d depends on directly, outermost first"""
    out, seen = {}, set()
    st = [d]
    while st and len(out) < cap:
        x = st.pop(0)
        if id(x) in seen:
            continue
        seen.add(id(x))
        if isinstance(x, DD):
            if x.var is None:
                st.append(x.leaf)
            else:
                st += [x.hi, x.lo]
        elif isinstance(x, Rat):
            for p in (x.num, x.den):
                for m in p:
                    for a, _ in m:
                        st.append(ATOMS[a])
        elif isinstance(x, Atom):
            if x.kind in ("sum", "maxover", "minover"):
                continue
            if x.kind in INTERPRETED:
                st += list(x.args)
            elif not x.integer or least(x) is not None:
                out[x.id] = x
    return list(out.values())


LEAST = {}  # smallest value of a symbol of the rules' own making that stands for a number of instants


def least(a):
    """smallest value of an integer symbol that is varied; None for indices and counters"""
    if a.id in LEAST:
        return LEAST[a.id]
    if a.kind in ("sym", "proj", "at"):
        n = repr(a)
        return None if "i#" in n or "loop" in n else 1 if a.id in POSITIVE else 0 if a.id in T.NONNEG else None
    return 2 if a.kind in ("len", "ode.len") else None


GRID = [mpf(sg) * mpf(10) ** k for k in range(-18, 19, 3) for sg in (1, -1)]
STEPS = [mpf(10) ** -k for k in (20, 14, 9, 4)] + [mpf(1), mpf(10), mpf(10) ** 6]


def roots(f):
    """points at which f, a function of one number, changes sign"""
    y0, y1, y2 = f(mpf(0)), f(mpf(1)), f(mpf(2))
    if None not in (y0, y1, y2) and y1 != y0 and close(y2 - y1, y1 - y0):
        r = [-y0 / (y1 - y0)]
    else:
        r = []
        pts = sorted((z, f(z)) for z in GRID)
        pts = [p for p in pts if p[1] is not None and mpmath.im(p[1]) == 0]
        for (z0, w0), (z1, w1) in zip(pts, pts[1:]):
            if (w0 < 0) != (w1 < 0):
                for _ in range(60):
                    zm = (z0 + z1) / 2
                    wm = f(zm)
                    if wm is None:
                        break
                    if (wm < 0) == (w0 < 0):
                        z0 = zm
                    else:
                        z1 = zm
                r.append((z0 + z1) / 2)
        r = r[:3]
    return [x for x in r if mpmath.im(x) == 0]


def around(at, r):
    """values of symbol at on both sides of r"""
    if at.integer:
        for z in range(int(mpmath.floor(r)) - 1, int(mpmath.floor(r)) + 3):
            if least(at) <= z < 10 ** 9:
                yield mpf(z)
        return
    for h in STEPS:
        e = h * (abs(r) if r else mpf(1))
        yield r + e
        yield r - e


def symbol_key(v, at):
    try:
        return at.kind, tuple(v.tag(x) for x in at.args)
    except (Skip, ZeroDivisionError, OverflowError, ValueError, KeyError):
        v.bvars, v.fixed = {}, {}
        return None


def directed(xs, ys, seeds=(0, 1), cap=16):
    """interpretations on both sides of the switches found in only one of the two groups"""
    a, b = switches(xs), switches(ys)
    todo = [v for k, v in a.items() if k not in b] + [v for k, v in b.items() if k not in a]
    todo = list({d.id: d for d in todo if isinstance(d, DD) and is_num(d)}.values())[:cap]
    for d in todo:
        for s in seeds:
            for at in inputs(d)[:6]:
                k = symbol_key(valuation(s), at)
                if k is None:
                    continue
                rs = roots(lambda z: ev_in(d, Valuation(s, {k: z})))
                for r in rs:
                    for z in around(at, r):
                        yield Valuation(s, {k: z}, (at.id,))
                if rs:
                    break
    # two switches at a time
    some = todo[:5]
    for p in range(len(some)):
        for q in range(p):
            for sp in (-1, 1):
                for sq in (-1, 1):
                    v = reach([(some[p], sp), (some[q], sq)], 0)
                    if v is not None:
                        yield v


def sign_is(x, want):
    if abs(x) < mpf(10) ** -40:
        x = mpf(0)
    return {-1: x < 0, 0: x == 0, 1: x > 0, 10: x >= 0, -10: x <= 0, 100: x != 0}[want]


def reach(lits, seed):
    """an interpretation under which each scalar has the sign wanted, found one symbol at a time"""
    over, ids = {}, []

    def holds(v):
        out = []
        for d, w in lits:
            x = ev_in(d, v)
            if x is None or mpmath.im(x) != 0:
                return None
            out.append(sign_is(x, w))
        return out

    h = holds(Valuation(seed, over))
    for _ in range(len(lits) + 1):
        if h is None:
            return None
        if all(h):
            return Valuation(seed, over, tuple(ids))
        d, w = lits[h.index(False)]
        best = None
        for at in inputs(d)[:6]:
            k = symbol_key(Valuation(seed, over), at)
            if k is None or k in over:
                continue
            for r in roots(lambda z: ev_in(d, Valuation(seed, {**over, k: z}))):
                for z in ([r] if w == 0 else around(at, r)):
                    if z < 0 and (at.id in T.NONNEG or at.id in POSITIVE):
                        continue
                    o = {**over, k: z}
                    h2 = holds(Valuation(seed, o))
                    if h2 is not None and h2[h.index(False)] and all(q or not p for p, q in zip(h, h2)):
                        best = o, h2, at.id
                        break
                if best:
                    break
            if best:
                break
        if best is None:
            return None
        over, h = best[0], best[1]
        ids.append(best[2])
    return None


def ways(g, cap=8):
    """conjunctions of literals under which g holds"""
    out = []

    def go(n, lits):
        if len(out) >= cap:
            return
        if n.var is None:
            if n is TRUE:
                out.append(list(lits))
            return
        for val, m in ((True, n.hi), (False, n.lo)):
            lits.append((CONDS[n.var], val))
            go(m, lits)
            lits.pop()

    go(g, [])
    return out


SIGN = {("neg", True): -1, ("neg", False): 10, ("pos", True): 1, ("pos", False): -10, ("zero", True): 0,
        ("zero", False): 100}
WIT = {}


def witness(g, a, b, seeds=(0, 1)):
    """an interpretation under which g holds and a differs from b, looked for by solving g's literals in turn"""
    k = (g.id, a.id, b.id)
    if k in WIT:
        return WIT[k]
    WIT[k] = False
    for lits in ways(g):
        num = {}
        for c, val in lits:
            if (c.kind, val) in SIGN:
                d = c.args[0]
                d = mk_leaf(d) if isinstance(d, Rat) else d
                # of two demands on one scalar the stricter counts
                o = num.get(d.id, (d, 100))[1]
                w = SIGN[c.kind, val]
                num[d.id] = (d, {(10, 100): 1, (100, 10): 1, (-10, 100): -1, (100, -10): -1, (10, -10): 0,
                                 (-10, 10): 0}.get((o, w), w if abs(o) > 1 else o))
        rest = [(c, val) for c, val in lits if (c.kind, val) not in SIGN and c.kind not in ("is_infinite", "is_nan")]
        for s in seeds:
            v = reach(list(num.values()), s)
            if v is None:
                continue
            cover = {}
            for c, val in sorted(rest, key=lambda t: not t[1]):
                try:
                    q = tuple(x.kind for x in c.group), tuple(v.tag(x) for x in c.args)
                except (Skip, ZeroDivisionError, OverflowError, ValueError, KeyError):
                    v.bvars, v.fixed = {}, {}
                    continue
                if val:
                    cover[q] = c.pos
                elif q not in cover:
                    no = {c2.pos for c2, val2 in rest if not val2 and c2.group is c.group}
                    cover[q] = ([n for n in range(len(q[0]) + 1) if n not in no] or [None])[0]
            v = Valuation(s, v.over, v.varied, cover)
            if ev_in(g, v) is not True:
                continue
            x, y = ev_in(a, v), ev_in(b, v)
            if x is None or y is None:
                continue
            if (x is not y) if isinstance(x, bool) else not close(x, y):
                WIT[k] = True
                return True
    return False


VETO = {}


OPEN = {}


def openly(d):
    """ids of the symbols the value of d depends on other than through an uninterpreted function"""
    r = OPEN.get(id(d))
    if r is not None:
        return r[0]
    out, seen = set(), set()
    st = [d]
    while st:
        x = st.pop()
        if id(x) in seen:
            continue
        seen.add(id(x))
        if isinstance(x, DD):
            if x.var is None:
                st.append(x.leaf)
            else:
                st += [x.hi, x.lo] + list(CONDS[x.var].args)
        elif isinstance(x, Rat):
            st += [ATOMS[a] for p in (x.num, x.den) for m in p for a, _ in m]
        elif isinstance(x, Atom):
            out.add(x.id)
            if x.kind in INTERPRETED:
                st += list(x.args)
    OPEN[id(d)] = (out, d)
    return out


def possible(guard, v):
    """can guard hold when the symbol varied in v has its value there, whatever the other conditions are"""
    at = v.varied
    for x in dd_vars(guard):
        c = CONDS[x]
        if not any(i in atoms_of(y) for y in c.args for i in at):
            continue
        if c.kind not in ("is_infinite", "is_nan") and (
                c.kind not in ("neg", "zero", "pos") or not any(i in openly(y) for y in c.args for i in at)):
            continue  # depends on it through an unknown function only, whose value there may be anything
        sc = v.cmemo
        try:
            r = v.cond(c)
        except (Skip, ZeroDivisionError, OverflowError, ValueError, KeyError):
            v.bvars, v.fixed, v.cmemo = {}, {}, sc
            continue
        guard = cofactor(guard, x, r)
        if guard is FALSE:
            return False
    return True


def vetoed(a, b, guard=TRUE):
    """do directed interpretations under which guard holds tell a from b"""
    k = (a.id, b.id, guard.id)
    r = VETO.get(k)
    if r is None and guard is not TRUE and not vetoed(a, b):
        r = VETO[k] = False
    if r is None:
        r = False
        for v in directed([a], [b]):
            x, y = ev_in(a, v), ev_in(b, v)
            if x is None or y is None:
                continue
            if (x is not y) if isinstance(x, bool) else not close(x, y):
                if guard is not TRUE and not possible(guard, v):
                    continue
                r = True
                break
        VETO[k] = r
    return r


def rat_equal(a, b, want=4, tries=24, guard=TRUE):
    """random interpretation of two scalar leaves"""
    a, b = mk_leaf(a), mk_leaf(b)
    ok = 0
    for s in range(tries):
        x, y = ev(a, s), ev(b, s)
        if x is None or y is None:
            continue
        if not close(x, y):
            return False
        ok += 1
        if ok >= want:
            return not vetoed(a, b, guard)
    return False


def dd_equal(a, b, want=10, tries=80, guard=TRUE):
    """random interpretation of two gated scalars"""
    ok = 0
    seen = set()
    bl = is_bool(a)
    for s in range(tries):
        x, y = ev(a, s), ev(b, s)
        if x is None or y is None:
            continue
        if bl:
            if x is not y:
                return False
            seen.add(x)
        elif not close(x, y):
            return False
        ok += 1
        if ok >= want and (not bl or (len(seen) == 2 and ok >= 40)):
            return not vetoed(a, b, guard)
    return False


def has_zero_cond(d, memo=None):
    st, seen = [d], set()
    while st:
        n = st.pop()
        if n.var is None or n.id in seen:
            continue
        seen.add(n.id)
        if CONDS[n.var].kind in ("zero", "is_nan", "is_infinite"):
            return True
        st += [n.hi, n.lo]
    return False


class Diff:
    def __init__(self):
        self.items = []

    def add(self, path, got, want):
        if len(self.items) < 12:
            self.items.append((path, got, want))


def short(x, n=400):
    s = repr(x)
    return s if len(s) <= n else s[:n] + "…"


PROBE = [0]


def probe_index():
    PROBE[0] += 1
    a = mk_atom("sym", ("i#%d" % PROBE[0],), True)
    T.NONNEG.add(a.id)
    return num_atom(a)


def compare(a, b, path="", guard=TRUE, out=None, depth=0):
    """record differences between the value found (a) and the value required (b) under guard"""
    if out is None:
        out = Diff()
    if a is b or depth > 14:
        return out
    if a is None or b is None:
        out.add(path, short(a), short(b))
        return out
    try:
        if key(a) == key(b):
            return out
    except Exception:
        pass
    if isinstance(a, DD) and isinstance(unbox(a), Val) and not isinstance(b, DD):
        a = unbox(a)
    if isinstance(b, DD) and isinstance(unbox(b), Val) and not isinstance(a, DD):
        b = unbox(b)
    if isinstance(a, Struct) and isinstance(b, Struct):
        for k in b.fields:
            if k not in a.fields:
                out.add(path + "." + str(k), "missing", short(b.fields[k]))
            else:
                compare(a.fields[k], b.fields[k], path + "." + str(k), guard, out, depth + 1)
        return out
    if isinstance(a, Tup) and isinstance(b, Tup) and len(a.items) == len(b.items):
        for k, (x, y) in enumerate(zip(a.items, b.items)):
            compare(x, y, "%s.%d" % (path, k), guard, out, depth + 1)
        return out
    if isinstance(a, Mat) and isinstance(b, Mat) and (a.rows, a.cols) == (b.rows, b.cols):
        for i in range(a.rows):
            for j in range(a.cols):
                x, y = a.get(i, j), b.get(i, j)
                compare(x if x is not None else ZERO, y if y is not None else ZERO,
                        "%s[%d,%d]" % (path, i, j), guard, out, depth + 1)
        return out
    if isinstance(a, Seq) and isinstance(b, Seq):
        compare(a.length(), b.length(), path + ".len", guard, out, depth + 1)
        if isinstance(a, Lst) and isinstance(b, Lst):
            for k, (x, y) in enumerate(zip(a.items, b.items)):
                compare(x, y, "%s[%d]" % (path, k), guard, out, depth + 1)
            return out
        i = probe_index()
        compare(a.elem(i), b.elem(i), path + "[i]", guard, out, depth + 1)
        return out
    if isinstance(a, DD) and isinstance(b, DD):
        return compare_dd(a, b, path, guard, out, depth)
    out.add(path, short(a), short(b))
    return out


def compare_dd(a, b, path, guard, out, depth):
    if guard is not TRUE and guard is not FALSE:
        a, b = restrict(a, guard), restrict(b, guard)
        if a is b:
            return out
    elif guard is FALSE:
        return out
    la, lb = leaves(a), leaves(b)
    if is_num(a) and is_num(b):
        bad = None
        memo = {}
        suspect = []
        if len(la) * len(lb) <= 400:
            for ga, x in la:
                for gb, y in lb:
                    if x is y:
                        continue
                    g = band(band(ga, gb), guard)
                    if g is FALSE:
                        continue
                    k = (id(x), id(y), g.id)
                    if k not in memo:
                        memo[k] = rat_equal(x, y, guard=g)
                    if not memo[k]:
                        bad = bad or (g, x, y)
                        suspect.append((g, x, y))
            if bad is None:
                return out
        if not has_zero_cond(a) and not has_zero_cond(b) and dd_equal(a, b, guard=guard):
            w = [t for t in suspect[:24] if witness(t[0], mk_leaf(t[1]), mk_leaf(t[2]))]
            if not w:
                return out
            bad = w[0]
        if bad is None:
            bad = (guard, a, b)
        g, x, y = bad
        out.add(path, short(x) + ("" if g is TRUE else "  when " + short(g, 200)), short(y))
        return out
    if is_bool(a) and is_bool(b):
        if not has_zero_cond(a) and not has_zero_cond(b) and dd_equal(a, b, guard=guard) \
                and not witness(band(band(a, bnot(b)), guard), TRUE, FALSE) \
                and not witness(band(band(b, bnot(a)), guard), TRUE, FALSE):
            return out
        out.add(path, short(a), short(b))
        return out
    for ga, x in la:
        for gb, y in lb:
            g = band(band(ga, gb), guard)
            if g is FALSE:
                continue
            compare_leaf(x, y, path, g, out, depth)
    return out


def compare_leaf(x, y, path, g, out, depth):
    if x is y:
        return
    if isinstance(x, Enum) and isinstance(y, Enum):
        if x.variant != y.variant:
            out.add(path, x.variant + ("" if g is TRUE else "  when " + short(g, 200)), y.variant)
            return
        for k in y.fields:
            if k not in x.fields:
                out.add(path, "no field " + k, short(y))
                continue
            compare(x.fields[k], y.fields[k], "%s.%s.%s" % (path, x.variant, k), g, out, depth + 1)
        return
    if isinstance(x, Boxed) or isinstance(y, Boxed):
        compare(x.v if isinstance(x, Boxed) else mk_leaf(x), y.v if isinstance(y, Boxed) else mk_leaf(y),
                path, g, out, depth + 1)
        return
    if isinstance(x, Opq) and isinstance(y, Opq):
        if x.atom is y.atom:
            return
        if same_opaque(x.atom, y.atom):
            return
        out.add(path, short(x), short(y))
        return
    if key(mk_leaf(x)) == key(mk_leaf(y)):
        return
    out.add(path, short(x), short(y))


def same_opaque(x, y):
    ok = 0
    for s in range(12):
        v = valuation(s)
        p, q = tag_in(x, v), tag_in(y, v)
        if p is None or q is None:
            continue
        if p != q:
            return False
        ok += 1
        if ok == 2:
            break
    if ok < 2:
        return False
    for v in directed([x], [y]):
        p, q = tag_in(x, v), tag_in(y, v)
        if p is not None and q is not None and p != q:
            return False
    return True


def equal(a, b, guard=TRUE):
    return not compare(a, b, "", guard).items


def same_arg(x, y):
    if x is y:
        return True
    return equal(x, y)


def align(c, g):
    """rewrite c's condition atoms to semantically equal atoms of g"""
    have = {}
    for v in dd_vars(g):
        have.setdefault(CONDS[v].kind, []).append(v)
    from .interp import csubst
    m = {}
    for v in dd_vars(c):
        if v in have.get(CONDS[v].kind, ()):
            continue
        cv = CONDS[v]
        for w in have.get(cv.kind, ()):
            cw = CONDS[w]
            if len(cv.args) == len(cw.args) and all(same_val(p, q) for p, q in zip(cv.args, cw.args)):
                m[v] = mk_node(w, TRUE, FALSE)
                break
    return csubst(c, m) if m else c


def same_val(p, q):
    if isinstance(p, DD) and isinstance(q, DD) and is_num(p) and is_num(q):
        if p is q:
            return True
        if p.var is None and q.var is None:
            # comparisons are canonical up to a positive factor
            if rat_equal(p.leaf, q.leaf):
                return True
            r = T.rat_div(p.leaf, q.leaf) if q.leaf.num else None
            return False
        return dd_equal(p, q)
    if isinstance(p, Atom) or isinstance(q, Atom):
        if p is q:
            return True
        return same_opaque(p, q)
    return equal(p, q)


def dd_vars(d):
    s, st, seen = set(), [d], set()
    while st:
        n = st.pop()
        if n.var is None or n.id in seen:
            continue
        seen.add(n.id)
        s.add(n.var)
        st += [n.hi, n.lo]
    return s


def input_atom(a):
    while isinstance(a, Atom) and a.kind == "proj":
        a = a.args[0]
    return isinstance(a, Atom) and a.kind == "sym"


def order_facts(d):
    """what is known about the comparisons in d: of two values one is smaller, equal or larger unless one of them is
    not a number (inputs are numbers)"""
    out = TRUE
    vs = dd_vars(d)
    out = abs_facts(vs)
    nans = [CONDS[v] for v in vs if CONDS[v].kind == "is_nan"]
    if not nans:
        return out
    for grp in {id(CONDS[v].group): CONDS[v].group for v in vs if CONDS[v].kind in ("neg", "zero", "pos")}.values():
        if len(grp) != 3:
            continue
        q = grp[0].args[0].leaf
        some = FALSE
        for c in grp:
            some = bor(some, mk_node(c.id, TRUE, FALSE))
        for n in nans:
            x = n.args[0]
            if x.var is not None:
                continue
            for y in (mk_leaf(x.leaf), T.abs_(x)):
                if y.var is not None or not y.leaf.num:
                    continue
                m = max(y.leaf.num)
                k = q.num.get(m)
                if k is None:
                    continue
                k = k / y.leaf.num[m]
                r = T.rat_sub(q, T.leaf_rat(T.mul(T.num(k), y)))
                if all(input_atom(T.ATOMS[a]) for a in T.rat_atoms(r)):
                    nn = mk_node(n.id, TRUE, FALSE)
                    out = band(out, bor(band(some, bnot(nn)), band(bnot(some), nn)))
                    break
    return out


def abs_facts(vs):
    """|y| is the larger of y and -y: what a comparison with an absolute value says about both"""
    out = TRUE
    for grp in {id(CONDS[v].group): CONDS[v].group for v in vs if CONDS[v].kind in ("neg", "zero", "pos")}.values():
        D = grp[0].args[0]
        q = D.leaf
        if q.den != T.ONE_P:
            continue
        for m, k in q.num.items():
            if not m or not all(T.ATOMS[a].kind == "abs" for a, ex in m):
                continue
            y = T.num(k)
            for a, ex in m:
                x = T.ATOMS[a].args[0]
                for _ in range(abs(ex)):
                    y = T.mul(y, x) if ex > 0 else T.div(y, x)
            if y.var is not None:
                continue
            rest = T.sub(D, mk_leaf(T.mk_rat({m: k}, T.ONE_P)))
            lo, hi = T.sub(rest, y), T.add(rest, y)
            neg = [lt(x, T.ZERO) for x in (D, lo, hi)]
            pos = [gt(x, T.ZERO) for x in (D, lo, hi)]
            if not any(v in vs for c in neg[1:] + pos[1:] for v in dd_vars(c)):
                continue
            both, any_ = (neg, pos) if k > 0 else (pos, neg)
            b = band(both[1], both[2])
            out = band(out, bor(band(both[0], b), band(bnot(both[0]), bnot(b))))
            b = bor(any_[1], any_[2])
            out = band(out, bor(band(any_[0], b), band(bnot(any_[0]), bnot(b))))
    return out


def entails(g, c):
    """does guard g imply condition c"""
    if band(g, bnot(c)) is FALSE:
        return True
    bad = band(g, bnot(align(c, g)))
    return bad is FALSE or band(bad, order_facts(bad)) is FALSE
