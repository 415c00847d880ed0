"""Value domain: rational functions over uninterpreted atoms, gated by decision diagrams.

Numeric values are decision diagrams (DD) whose inner nodes test condition atoms and whose leaves
are rational functions (Rat) over interned numeric atoms; booleans are DDs with leaves True/False;
other non-mergeable values (enum variants, references, closures...) are DD leaves too.
Equality of two numeric leaves is decided by cross multiplication (and cached by interning).
"""
import random
from fractions import Fraction
from decimal import Decimal

P = (1 << 127) - 1
_rng = random.Random(20240229)


class TooBig(Exception):
    pass


# ---------------------------------------------------------------- numeric atoms
class Atom:
    __slots__ = ("id", "kind", "args", "fp", "integer", "key", "meta")

    def __repr__(self):
        return show_atom(self)


ATOMS = []
_atom_tab = {}


def mk_atom(kind, args=(), integer=False, keyargs=None, meta=None):
    key = (kind, tuple(args) if keyargs is None else keyargs)
    a = _atom_tab.get(key)
    if a is None:
        a = Atom()
        a.id = len(ATOMS)
        a.kind = kind
        a.args = tuple(args)
        a.fp = _rng.randrange(2, P)
        a.integer = integer
        a.key = key
        a.meta = meta
        ATOMS.append(a)
        _atom_tab[key] = a
    return a


def sym(name, integer=False):
    return num_atom(mk_atom("sym", (name,), integer))


_fresh = [0]


def fresh_name(base):
    _fresh[0] += 1
    return "%s'%d" % (base, _fresh[0])


# ---------------------------------------------------------------- polynomials
# poly: dict mono->Fraction ; mono: tuple of (atomid, exp) sorted by atomid
MAXTERMS = 6000


def p_add(a, b, sb=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + c * sb
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def m_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for x, e in b:
        n = d.get(x, 0) + e
        if n:
            d[x] = n
        else:
            d.pop(x, None)
    return tuple(sorted(d.items()))


def m_needs_reduce(m):
    for x, e in m:
        k = ATOMS[x].kind
        if k == "sqrt" and (e >= 2 or e < 0):
            return True
        if k == "cos" and e >= 2:
            return True
    return False


def p_mul_raw(a, b):
    r = {}
    if len(a) * len(b) > MAXTERMS * 20:
        raise TooBig("polynomial product")
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = m_mul(m1, m2)
            v = r.get(m, 0) + c1 * c2
            if v:
                r[m] = v
            else:
                r.pop(m, None)
    return r


def p_scale(a, c):
    return {m: v * c for m, v in a.items()} if c else {}


def p_fp(a):
    t = 0
    for m, c in a.items():
        v = c.numerator % P * pow(c.denominator, P - 2, P) % P
        for x, e in m:
            if e >= 0:
                v = v * pow(ATOMS[x].fp, e, P) % P
            else:
                v = v * pow(pow(ATOMS[x].fp, P - 2, P), -e, P) % P
        t += v
    return t % P


ONE_P = {(): Fraction(1)}


class Rat:
    __slots__ = ("num", "den", "fp", "id", "_syms")

    def is_const(self):
        return self.den == ONE_P and (not self.num or (len(self.num) == 1 and () in self.num))

    def const(self):
        return self.num.get((), Fraction(0))

    def __repr__(self):
        return show_rat(self)


_rat_tab = {}
_rats = []


def p_divexact(a, b):
    """multivariate exact division a/b or None (Laurent monomials shifted away first)"""
    if not a:
        return {}
    # lexicographic leading term on (atom id) vectors
    ids = sorted({x for m in a for x, _ in m} | {x for m in b for x, _ in m})
    if len(ids) > 40:
        return None
    pos = {x: i for i, x in enumerate(ids)}

    def vec(m):
        v = [0] * len(ids)
        for x, e in m:
            v[pos[x]] = e
        return tuple(v)

    A = {vec(m): c for m, c in a.items()}
    B = {vec(m): c for m, c in b.items()}
    lb = max(B)
    q = {}
    steps = 0
    while A:
        steps += 1
        if steps > 400:
            return None
        la = max(A)
        d = tuple(x - y for x, y in zip(la, lb))
        if any(x < 0 for x in d):
            return None
        c = A[la] / B[lb]
        q[d] = c
        for m, v in B.items():
            k = tuple(x + y for x, y in zip(m, d))
            nv = A.get(k, 0) - v * c
            if nv:
                A[k] = nv
            else:
                A.pop(k, None)
    return {tuple((ids[i], e) for i, e in enumerate(m) if e): c for m, c in q.items()}


def mono_content(p):
    """common monomial (min exponents) of a polynomial"""
    it = iter(p)
    first = dict(next(it))
    for m in it:
        d = dict(m)
        for x in list(first):
            if x in d:
                if d[x] < first[x]:
                    first[x] = d[x]
            elif first[x] > 0:
                del first[x]
        for x, e in d.items():
            if x not in first and e < 0:
                first[x] = e
        # absent in this one but negative kept
    # keep negatives: min over all monomials counting absence as 0
    res = {}
    allx = {x for m in p for x, _ in m}
    for x in allx:
        mn = min(dict(m).get(x, 0) for m in p)
        if mn:
            res[x] = mn
    return tuple(sorted(res.items()))


def m_inv(m):
    return tuple((x, -e) for x, e in m)


def mk_rat(num, den):
    if not num:
        num, den = {}, ONE_P
    else:
        if len(den) == 1:
            (m, c), = den.items()
            if m or c != 1:
                im = m_inv(m)
                num = {m_mul(k, im): v / c for k, v in num.items()}
                if any(m_needs_reduce(k) for k in num):
                    return reduce_rat(num, ONE_P)
            den = ONE_P
        else:
            mc = mono_content(den)
            if mc:
                im = m_inv(mc)
                den = {m_mul(k, im): v for k, v in den.items()}
                num = {m_mul(k, im): v for k, v in num.items()}
                if any(m_needs_reduce(k) for k in num):
                    return reduce_rat(num, den)
            lead = den[max(den)]
            if lead != 1:
                den = {k: v / lead for k, v in den.items()}
                num = {k: v / lead for k, v in num.items()}
            if len(num) >= 1 and len(num) * len(den) < 4000:
                mn = mono_content(num)
                n2 = {m_mul(k, m_inv(mn)): v for k, v in num.items()} if mn else num
                q = p_divexact(n2, den)
                if q is not None:
                    if mn:
                        q = {m_mul(k, mn): v for k, v in q.items()}
                    num, den = q, ONE_P
                    if any(m_needs_reduce(k) for k in num):
                        return reduce_rat(num, den)
                elif len(n2) > 1 and len(n2) <= len(den):
                    # also try the other way: den = k * n2
                    q = p_divexact(den, n2)
                    if q is not None and len(q) > 0:
                        num = {mn: Fraction(1)} if mn else dict(ONE_P)
                        return mk_rat(num, q)
    if len(num) > MAXTERMS or len(den) > MAXTERMS:
        raise TooBig("polynomial size")
    return intern_rat(num, den)


def intern_rat(num, den):
    fpd = p_fp(den)
    fpn = p_fp(num)
    fp = fpn * pow(fpd, P - 2, P) % P
    bucket = _rat_tab.setdefault(fp, [])
    for r in bucket:
        if r.num == num and r.den == den:
            return r
    for r in bucket:
        # cross multiplication (raw; relations already reduced on both sides)
        try:
            if p_mul_raw(r.num, den) == p_mul_raw(num, r.den):
                return r
        except TooBig:
            return r  # equal modulo a 127-bit prime
    r = Rat()
    r.num = num
    r.den = den
    r.fp = fp
    r.id = len(_rats)
    r._syms = None
    _rats.append(r)
    bucket.append(r)
    return r


def reduce_rat(num, den):
    """eliminate sqrt^2, sqrt^-k, cos^2 from the numerator (and denominators)"""
    acc = R0
    keep = {}
    for m, c in num.items():
        if not m_needs_reduce(m):
            v = keep.get(m, 0) + c
            if v:
                keep[m] = v
            else:
                keep.pop(m, None)
            continue
        t = rat_const(c)
        for x, e in m:
            a = ATOMS[x]
            if a.kind == "sqrt" and (e >= 2 or e < 0):
                q, rem = divmod(e, 2)
                base = leaf_rat(a.args[0])
                t = rat_mul(t, rat_pow(base, q))
                if rem:
                    t = rat_mul(t, _mono_rat(((x, 1),)))
            elif a.kind == "cos" and e >= 2:
                q, rem = divmod(e, 2)
                s = leaf_rat(sin(a.args[0]))
                t = rat_mul(t, rat_pow(rat_sub(R1, rat_mul(s, s)), q))
                if rem:
                    t = rat_mul(t, _mono_rat(((x, 1),)))
            else:
                t = rat_mul(t, _mono_rat(((x, e),)))
        acc = rat_add(acc, t)
    r = rat_add(acc, intern_rat(keep, ONE_P) if keep else R0)
    if den is not ONE_P and den != ONE_P:
        r = rat_div(r, mk_rat(den, ONE_P))
    return r


def _mono_rat(m):
    return intern_rat({m: Fraction(1)}, ONE_P)


def rat_const(c):
    c = Fraction(c)
    return intern_rat({(): c} if c else {}, ONE_P)


R0 = rat_const(0)
R1 = rat_const(1)


def _mk_red(num, den):
    if any(m_needs_reduce(k) for k in num):
        return reduce_rat(num, den)
    if den != ONE_P and any(m_needs_reduce(k) for k in den):
        d = reduce_rat(den, ONE_P)
        return rat_div(mk_rat(num, ONE_P), d)
    return mk_rat(num, den)


def rat_add(a, b, s=1):
    if a.den == b.den:
        return _mk_red(p_add(a.num, b.num, s), a.den)
    if a.den == ONE_P:
        return _mk_red(p_add(p_mul_raw(a.num, b.den), b.num, s), b.den)
    if b.den == ONE_P:
        return _mk_red(p_add(a.num, p_mul_raw(b.num, a.den), s), a.den)
    return _mk_red(
        p_add(p_mul_raw(a.num, b.den), p_mul_raw(b.num, a.den), s), p_mul_raw(a.den, b.den)
    )


def rat_sub(a, b):
    return rat_add(a, b, -1)


def rat_mul(a, b):
    if a.den == ONE_P and b.den == ONE_P:
        return _mk_red(p_mul_raw(a.num, b.num), ONE_P)
    n1, d1, n2, d2 = a.num, a.den, b.num, b.den
    if n1 == d2 and d2 != ONE_P:
        return _mk_red(n2, d1)
    if n2 == d1 and d1 != ONE_P:
        return _mk_red(n1, d2)
    return _mk_red(p_mul_raw(n1, n2), p_mul_raw(d1, d2))


def rat_inv(a):
    if not a.num:
        return num_leaf_rat(mk_atom("divzero", ()))
    return _mk_red(a.den, a.num)


def num_leaf_rat(at):
    return _mono_rat(((at.id, 1),))


def rat_div(a, b):
    if b.is_const() and b.num:
        c = b.const()
        return mk_rat(p_scale(a.num, 1 / c), a.den)
    if INF_ID is not None and b.den == ONE_P and len(b.num) == 1:
        (m, c), = b.num.items()
        if m == ((INF_ID, 1),) and not rat_has_atom(a, INF_ID):
            return R0
    return rat_mul(a, rat_inv(b))


INF_ID = None


def rat_has_atom(r, i):
    return any(x == i for p in (r.num, r.den) for m in p for x, _ in m)


def rat_pow(a, n):
    if n < 0:
        return rat_inv(rat_pow(a, -n))
    r = R1
    for _ in range(n):
        r = rat_mul(r, a)
    return r


def rat_neg(a):
    return mk_rat(p_scale(a.num, -1), a.den)


def rat_atoms(r):
    return {x for p in (r.num, r.den) for m in p for x, _ in m}


# ---------------------------------------------------------------- condition atoms
class Cond:
    __slots__ = ("id", "kind", "args", "group", "pos", "key", "gsize")

    def __repr__(self):
        return show_cond(self)


CONDS = []
_cond_tab = {}


def cond_group(kinds, args, keyargs=None):
    """allocate (or find) a group of mutually exclusive condition atoms"""
    key = (tuple(kinds), args if keyargs is None else keyargs)
    g = _cond_tab.get(key)
    if g is None:
        g = []
        for i, k in enumerate(kinds):
            c = Cond()
            c.id = len(CONDS)
            c.kind = k
            c.args = args
            c.pos = i
            c.group = g
            c.key = (k, key[1])
            CONDS.append(c)
            g.append(c)
        _cond_tab[key] = g
    return g


def bool_atom(kind, args=(), keyargs=None):
    g = cond_group((kind,), tuple(args), keyargs)
    return mk_node(g[0].id, TRUE, FALSE)


# ---------------------------------------------------------------- decision diagrams
class DD:
    __slots__ = ("id", "var", "hi", "lo", "leaf", "key", "__weakref__")

    def is_leaf(self):
        return self.var is None

    def __repr__(self):
        return show(self)


_dd_tab = {}
_dds = []


def _new_dd(key):
    d = DD()
    d.id = len(_dds)
    d.key = key
    _dds.append(d)
    return d


def mk_leaf(v):
    if v is True or v is False:
        key = ("b", v)
    elif isinstance(v, Rat):
        key = ("r", v.id)
    else:
        key = ("v",) + v.vkey()
    d = _dd_tab.get(key)
    if d is None:
        d = _new_dd(key)
        d.var = None
        d.hi = d.lo = None
        d.leaf = v
        _dd_tab[key] = d
    return d


_assume_memo = {}


def assume(d, cid, val):
    """cofactor of d with condition cid := val"""
    if d.var is None or d.var > cid:
        return d
    k = (d.id, cid, val)
    r = _assume_memo.get(k)
    if r is None:
        if d.var == cid:
            r = d.hi if val else d.lo
        else:
            r = mk_node(d.var, assume(d.hi, cid, val), assume(d.lo, cid, val))
        _assume_memo[k] = r
    return r


def mk_node(var, hi, lo):
    c = CONDS[var]
    if len(c.group) > 1:
        for s in c.group[c.pos + 1:]:
            hi = assume(hi, s.id, False)
        if c.kind == "nonneg_last":
            pass
    if hi is lo:
        return hi
    key = ("n", var, hi.id, lo.id)
    d = _dd_tab.get(key)
    if d is None:
        d = _new_dd(key)
        d.var = var
        d.hi = hi
        d.lo = lo
        d.leaf = None
        _dd_tab[key] = d
    return d


TRUE = mk_leaf(True)
FALSE = mk_leaf(False)


def bconst(b):
    return TRUE if b else FALSE


_ite_memo = {}


def cof(d, v):
    if d.var == v:
        return d.hi, d.lo
    return d, d


def ite(c, x, y):
    if c is TRUE:
        return x
    if c is FALSE:
        return y
    if x is y:
        return x
    if x is TRUE and y is FALSE:
        return c
    k = (c.id, x.id, y.id)
    r = _ite_memo.get(k)
    if r is not None:
        return r
    v = c.var
    if x.var is not None and x.var < v:
        v = x.var
    if y.var is not None and y.var < v:
        v = y.var
    c1, c0 = cof(c, v)
    x1, x0 = cof(x, v)
    y1, y0 = cof(y, v)
    grp = CONDS[v].group
    if len(grp) > 1:
        for s in grp[CONDS[v].pos + 1:]:
            c1 = assume(c1, s.id, False)
            x1 = assume(x1, s.id, False)
            y1 = assume(y1, s.id, False)
    r = mk_node(v, ite(c1, x1, y1), ite(c0, x0, y0))
    if r.var is not None and CONDS[r.var].kind in ("neg", "pos"):
        r = _abs_norm(r)
    _ite_memo[k] = r
    return r


def _abs_norm(r):
    """ite(d<0, -d, d) is |d|"""
    c = CONDS[r.var]
    h, l = r.hi, r.lo
    if h.var is None and l.var is None and isinstance(h.leaf, Rat) and isinstance(l.leaf, Rat):
        d = c.args[0]
        dr = leaf_rat(d)
        if l.leaf.den == h.leaf.den and rat_neg(l.leaf) is h.leaf:
            if (c.kind == "neg" and l.leaf is dr) or (c.kind == "pos" and h.leaf is dr):
                return abs_(d)
    return r


def bnot(a):
    return ite(a, FALSE, TRUE)


def band(a, b):
    return ite(a, b, FALSE)


def bor(a, b):
    return ite(a, TRUE, b)


def ball(xs):
    r = TRUE
    for x in xs:
        r = band(r, x)
    return r


def bany(xs):
    r = FALSE
    for x in xs:
        r = bor(r, x)
    return r


def implies(a, b):
    return band(a, bnot(b)) is FALSE


def restrict(f, care):
    """simplify f using the don't-cares outside `care` (generalised cofactor)"""
    memo = {}

    def go(f, c):
        if c is TRUE or f.var is None:
            return f
        if c is FALSE:
            return f
        k = (f.id, c.id)
        if k in memo:
            return memo[k]
        v = f.var if c.var is None or f.var <= c.var else c.var
        f1, f0 = cof(f, v)
        c1, c0 = cof(c, v)
        grp = CONDS[v].group
        if len(grp) > 1:
            # v excludes its siblings
            for s in grp[CONDS[v].pos + 1:]:
                c1 = assume(c1, s.id, False)
                f1 = assume(f1, s.id, False)
        if c1 is FALSE:
            r = go(f0, c0)
        elif c0 is FALSE:
            r = go(f1, c1)
        elif f1 is f0:
            # v tested only by care: f does not depend on it
            r = go(f, bor(c1, c0))
        else:
            r = mk_node(v, go(f1, c1), go(f0, c0))
        memo[k] = r
        return r

    return go(f, care)


def leaves(d):
    """list of (guard, leaf value) for the distinct leaves of d"""
    seen = {}
    order = []

    def go(n, g):
        if n.var is None:
            if n.id in seen:
                seen[n.id][0] = bor(seen[n.id][0], g)
            else:
                seen[n.id] = [g, n]
                order.append(n.id)
            return
        v = mk_node(n.var, TRUE, FALSE)
        go(n.hi, band(g, v))
        go(n.lo, band(g, bnot(v)))

    go(d, TRUE)
    return [(seen[i][0], seen[i][1].leaf) for i in order if seen[i][0] is not FALSE]


def n_leaves(d):
    s = set()
    st = [d]
    seen = set()
    while st:
        n = st.pop()
        if n.id in seen:
            continue
        seen.add(n.id)
        if n.var is None:
            s.add(n.id)
        else:
            st += [n.hi, n.lo]
    return len(s)


def dd_size(d):
    st = [d]
    seen = set()
    while st:
        n = st.pop()
        if n.id in seen:
            continue
        seen.add(n.id)
        if n.var is not None:
            st += [n.hi, n.lo]
    return len(seen)


def dmap(f, d):
    """map a leaf function (returning a DD) over d"""
    memo = {}

    def go(n):
        r = memo.get(n.id)
        if r is None:
            if n.var is None:
                r = f(n.leaf)
            else:
                r = ite(mk_node(n.var, TRUE, FALSE), go(n.hi), go(n.lo))
            memo[n.id] = r
        return r

    return go(d)


def dmap2(f, a, b):
    memo = {}

    def go(x, y):
        if x.var is None and y.var is None:
            return f(x.leaf, y.leaf)
        k = (x.id, y.id)
        r = memo.get(k)
        if r is None:
            v = x.var
            if v is None or (y.var is not None and y.var < v):
                v = y.var
            x1, x0 = cof(x, v)
            y1, y0 = cof(y, v)
            grp = CONDS[v].group
            if len(grp) > 1:
                for s in grp[CONDS[v].pos + 1:]:
                    x1 = assume(x1, s.id, False)
                    y1 = assume(y1, s.id, False)
            r = ite(mk_node(v, TRUE, FALSE), go(x1, y1), go(x0, y0))
            memo[k] = r
            if len(memo) > 20000:
                raise TooBig("decision diagram product")
        return r

    return go(a, b)


def num(c):
    return mk_leaf(rat_const(c))


def num_atom(a):
    return mk_leaf(num_leaf_rat(a))


def leaf_rat(d):
    assert d.var is None and isinstance(d.leaf, Rat), d
    return d.leaf


def is_num(d):
    while d.var is not None:
        d = d.hi
    return isinstance(d.leaf, Rat)


def is_bool(d):
    while d.var is not None:
        d = d.hi
    return d.leaf is True or d.leaf is False


def parse_num(s):
    s = s.replace("_", "")
    if s in ("inf", "+inf"):
        return INF
    if s == "-inf":
        return neg(INF)
    if s in ("nan", "NaN"):
        return num_atom(mk_atom("nan", ()))
    return num(Fraction(Decimal(s)))


ZERO = num(0)
ONE = num(1)
_inf = mk_atom("inf", ())
INF_ID = _inf.id
INF = num_atom(_inf)
PI = num_atom(mk_atom("pi", ()))


def _L(f):
    return lambda a, b: mk_leaf(f(a, b))


_bin_memo = {}


def _bin(name, f, a, b):
    k = (name, a.id, b.id)
    r = _bin_memo.get(k)
    if r is None:
        r = dmap2(lambda x, y: mk_leaf(f(x, y)), a, b)
        _bin_memo[k] = r
    return r


def add(a, b):
    return _bin("+", rat_add, a, b)


def sub(a, b):
    return _bin("-", rat_sub, a, b)


def mul(a, b):
    return _bin("*", rat_mul, a, b)


def div(a, b):
    return _bin("/", rat_div, a, b)


def neg(a):
    return sub(ZERO, a)


def total(xs):
    r = ZERO
    for x in xs:
        r = add(r, x)
    return r


def powi(a, n):
    return dmap(lambda r: mk_leaf(rat_pow(r, n)), a)


def canon_sign(r):
    """(r', s): r = s * k * r' with k > 0, r' canonical up to positive scale"""
    if not r.num:
        return r, 1
    lead = r.num[max(r.num)]
    s = 1 if lead > 0 else -1
    if r.den == ONE_P:
        sc = 1 / abs(lead)
        return intern_norm(p_scale(r.num, s * sc), ONE_P), s
    sc = 1 / abs(lead)
    return mk_rat(p_scale(r.num, s * sc), r.den), s


def intern_norm(n, d):
    return intern_rat(n, d)


NONNEG = set()  # atoms known to be >= 0


def rat_nonneg(r):
    """every term is a nonnegative coefficient times nonnegative atoms"""
    if r.den != ONE_P:
        return False
    for m, c in r.num.items():
        if c < 0:
            return False
        for x, e in m:
            if x not in NONNEG and ATOMS[x].kind not in ("len", "it", "idx", "bound"):
                return False
    return True


def rat_is_integer(r):
    """integer-valued by construction"""
    if r.den != ONE_P:
        return False
    for m, c in r.num.items():
        if c.denominator != 1:
            return False
        for x, e in m:
            if e < 0 or not ATOMS[x].integer:
                return False
    return True


def cmp0(r, what, integer=False):
    """DD bool of rat r compared with zero: what in {'lt','eq','gt'}"""
    if r.is_const():
        c = r.const()
        return bconst({"lt": c < 0, "eq": c == 0, "gt": c > 0}[what])
    # infinities
    if rat_atoms(r) == {INF_ID} and r.den == ONE_P and len(r.num) >= 1:
        m = ((INF_ID, 1),)
        if set(r.num) <= {m, ()} and m in r.num:
            c = r.num[m]
            return bconst({"lt": c < 0, "eq": False, "gt": c > 0}[what])
    integer = rat_is_integer(r)
    if integer:
        # nonnegative integers (lengths, unsigned inputs)
        if rat_nonneg(r):
            if what == "lt":
                return FALSE
            if r.num.get((), 0) > 0:
                return bconst(what == "gt")
            if what == "gt":
                return bnot(cmp0(r, "eq"))
        else:
            n = rat_neg(r)
            if rat_nonneg(n):
                return cmp0(n, {"lt": "gt", "gt": "lt", "eq": "eq"}[what])
    d, s = canon_sign(r)
    if what == "lt":
        k = "neg" if s > 0 else "pos"
    elif what == "gt":
        k = "pos" if s > 0 else "neg"
    else:
        k = "zero"
    if integer:
        g = cond_group(("neg", "zero"), (mk_leaf(d),), ("I", d.id))
        if k == "neg":
            return mk_node(g[0].id, TRUE, FALSE)
        if k == "zero":
            return mk_node(g[1].id, TRUE, FALSE)
        return mk_node(g[0].id, FALSE, mk_node(g[1].id, FALSE, TRUE))
    g = cond_group(("neg", "zero", "pos"), (mk_leaf(d),), ("F", d.id))
    i = {"neg": 0, "zero": 1, "pos": 2}[k]
    return mk_node(g[i].id, TRUE, FALSE)


def _cmp(what):
    def f(x, y):
        return cmp0(rat_sub(x, y), what)

    return f


def _dcmp(what, a, b):
    if a is b and what == "eq" and not _float_like(a):
        return TRUE
    return dmap2(_cmp(what), a, b)


def _float_like(a):
    return False


def lt(a, b):
    return _dcmp("lt", a, b)


def gt(a, b):
    return _dcmp("gt", a, b)


def eq(a, b):
    return _dcmp("eq", a, b)


def le(a, b):
    return bor(lt(a, b), eq(a, b))


def ge(a, b):
    return bor(gt(a, b), eq(a, b))


# ---------------------------------------------------------------- elementary functions
def _perfect_sqrt(r):
    """sqrt of a rat that is c^2 * monomial^2 -> (coef) else None; only constants"""
    if r.is_const():
        c = r.const()
        if c >= 0:
            from math import isqrt
            a, b = isqrt(c.numerator), isqrt(c.denominator)
            if a * a == c.numerator and b * b == c.denominator:
                return Fraction(a, b)
    return None


def sqrt(a):
    def f(r):
        c = _perfect_sqrt(r)
        if c is not None:
            return num(c)
        return num_atom(mk_atom("sqrt", (mk_leaf(r),)))

    return dmap(f, a)


def sin(a):
    def f(r):
        if not r.num:
            return ZERO
        lead = r.num[max(r.num)]
        if lead < 0:
            return neg(num_atom(mk_atom("sin", (mk_leaf(rat_neg(r)),))))
        return num_atom(mk_atom("sin", (mk_leaf(r),)))

    return dmap(f, a)


def cos(a):
    def f(r):
        if not r.num:
            return ONE
        lead = r.num[max(r.num)]
        if lead < 0:
            r = rat_neg(r)
        return num_atom(mk_atom("cos", (mk_leaf(r),)))

    return dmap(f, a)


def exp(a):
    def f(r):
        if not r.num:
            return ONE
        return num_atom(mk_atom("exp", (mk_leaf(r),)))

    return dmap(f, a)


def ln(a):
    def f(r):
        if r is R1:
            return ZERO
        return num_atom(mk_atom("ln", (mk_leaf(r),)))

    return dmap(f, a)


def abs_(a):
    def f(r):
        if r.is_const():
            return num(abs(r.const()))
        lead = r.num[max(r.num)]
        if lead < 0:
            r = rat_neg(r)
        parts = _abs_parts(r)
        if parts is not None:
            return parts
        return num_atom(mk_atom("abs", (mk_leaf(r),)))

    return dmap(f, a)


def _abs_parts(r):
    """|p m / q| = |p| |m| / |q| for the monomial m (exact in floating point too); None when there is nothing to take
    apart"""
    mn = mono_content(r.num)
    im = m_inv(mn)
    pn = {m_mul(k, im): v for k, v in r.num.items()} if mn else r.num
    k = Fraction(1)
    if len(pn) == 1:
        (m, c), = pn.items()
        k, pn = abs(c), None
        if m:
            return None
    if not mn and r.den == ONE_P:
        return None
    if pn is None and r.den == ONE_P and len(mn) == 1 and mn[0][1] == 1 and k == 1 and mn[0][0] not in NONNEG \
            and ATOMS[mn[0][0]].kind != "abs":
        return None
    out = num(k)
    for a, e in mn:
        x = ATOMS[a]
        base = num_atom(x)
        if a not in NONNEG and x.kind != "abs":
            base = num_atom(mk_atom("abs", (base,)))
        for _ in range(abs(e)):
            out = mul(out, base) if e > 0 else div(out, base)
    for q, inv in ((pn, False), (r.den if r.den != ONE_P else None, True)):
        if q:
            x = mk_rat(q, ONE_P)
            x = canon_neg(x)
            x = num_atom(mk_atom("abs", (mk_leaf(x),)))
            out = div(out, x) if inv else mul(out, x)
    return out


def canon_neg(r):
    return rat_neg(r) if r.num[max(r.num)] < 0 else r


def max2(a, b, name="max"):
    def f(x, y):
        if x is y:
            return mk_leaf(x)
        if x.is_const() and y.is_const():
            return num(max(x.const(), y.const()) if name == "max" else min(x.const(), y.const()))
        p = sorted((x, y), key=lambda r: r.id)
        return num_atom(mk_atom(name, (mk_leaf(p[0]), mk_leaf(p[1]))))

    return dmap2(f, a, b)


def min2(a, b):
    return max2(a, b, "min")


def fn1(name, a):
    return dmap(lambda r: num_atom(mk_atom(name, (mk_leaf(r),))), a)


def is_infinite(a):
    def f(r):
        if r.is_const():
            return FALSE
        if rat_atoms(r) == {INF_ID}:
            return TRUE
        d, s = canon_sign(r)
        return bool_atom("is_infinite", (mk_leaf(d),))

    return dmap(f, a)


def is_nan(a):
    def f(r):
        while len(r.num) == 1 and r.den == ONE_P:
            (m, c), = r.num.items()
            if not (len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].kind == "abs"):
                break
            x = ATOMS[m[0][0]].args[0]
            if x.var is not None:
                break
            r = x.leaf
        if r.is_const():
            return FALSE
        r, _ = canon_sign(r)
        return bool_atom("is_nan", (mk_leaf(r),))

    return dmap(f, a)


# ---------------------------------------------------------------- printing
_shown = {}


def show_atom(a):
    r = _shown.get(a.id)
    if r is None:
        r = _shown[a.id] = show_atom_(a)
    return r


def show_atom_(a):
    if a.kind == "sym":
        return str(a.args[0])
    if a.kind == "inf":
        return "inf"
    if a.kind == "pi":
        return "π"
    if a.kind == "at":
        return "%s[%s]" % (_short(a.args[0]), _short(a.args[1]))
    if a.kind in ("sum", "maxover", "minover"):
        return "%s_{%r<%s}(%s)" % ({"sum": "Σ", "maxover": "max", "minover": "min"}[a.kind], a.args[1], _short(a.args[0]), _short(a.args[2]))
    if a.kind == "proj":
        return "%s.%s" % (_short(a.args[0]), a.args[1])
    if a.kind == "bound":
        return "i%d" % a.args[0]
    if a.meta and "show" in a.meta:
        return a.meta["show"]
    return "%s(%s)" % (a.kind.split("::")[-1], ", ".join(_short(x) for x in a.args))


def _short(x):
    s = str(x) if not isinstance(x, (list, tuple)) else "(" + ",".join(_short(y) for y in x) + ")"
    return s if len(s) < 400 else s[:380] + "…"


def show_mono(m):
    return "*".join(
        (repr(ATOMS[x]) if e == 1 else "%r^%d" % (ATOMS[x], e)) for x, e in m
    )


def show_poly(p):
    if not p:
        return "0"
    out = []
    for m in sorted(p, key=lambda m: [(-e, x) for x, e in m]):
        c = p[m]
        s = show_mono(m)
        cs = str(c) if c.denominator < 10 ** 6 else repr(float(c))
        if not s:
            t = cs
        elif c == 1:
            t = s
        elif c == -1:
            t = "-" + s
        else:
            t = cs + "*" + s
        out.append(t)
    r = " + ".join(out[:40]).replace("+ -", "- ")
    if len(out) > 40:
        r += " + …(%d terms)" % len(out)
    return r


def show_rat(r):
    if r.den == ONE_P:
        return show_poly(r.num)
    return "(%s)/(%s)" % (show_poly(r.num), show_poly(r.den))


def show_cond(c):
    if c.kind == "neg":
        return "[%s < 0]" % _short(c.args[0])
    if c.kind == "zero":
        return "[%s == 0]" % _short(c.args[0])
    if c.kind == "pos":
        return "[%s > 0]" % _short(c.args[0])
    return "%s(%s)" % (c.kind, ", ".join(_short(x) for x in c.args))


def show(d, depth=0):
    if d.var is None:
        return str(d.leaf)
    if d.hi is TRUE and d.lo is FALSE:
        return repr(CONDS[d.var])
    if d.hi is FALSE and d.lo is TRUE:
        return "!" + repr(CONDS[d.var])
    if depth > 6:
        return "…"
    return "{%r ? %s : %s}" % (CONDS[d.var], show(d.hi, depth + 1), show(d.lo, depth + 1))
