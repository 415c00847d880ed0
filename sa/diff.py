"""Symbolic differentiation of terms."""
from .term import *
from . import term as T


class NotDifferentiable(Exception):
    pass


def depends(x, aid):
    """does the value mention atom aid anywhere?"""
    from .values import atoms_of
    return aid in atoms_of(x)


def d_poly(p, aid, memo):
    r = ZERO
    for m, c in p.items():
        for i, (a, e) in enumerate(m):
            da = d_atom(a, aid, memo)
            if da is ZERO:
                continue
            rest = mul(num(c * e), powi(num_atom(ATOMS[a]), e - 1))
            for j, (b, f) in enumerate(m):
                if j != i:
                    rest = mul(rest, powi(num_atom(ATOMS[b]), f))
            r = add(r, mul(rest, da))
    return r


def d_atom(a, aid, memo):
    if a == aid:
        return ONE
    if a in memo:
        return memo[a]
    A = ATOMS[a]
    r = ZERO
    if any(depends(x, aid) for x in A.args):
        u = A.args[0]
        me = num_atom(A)
        du = d(u, aid, memo) if isinstance(u, DD) else None
        k = A.kind
        if du is None:
            raise NotDifferentiable(k)
        if k == "sin":
            r = mul(cos(u), du)
        elif k == "cos":
            r = mul(neg(sin(u)), du)
        elif k == "exp":
            r = mul(me, du)
        elif k == "ln":
            r = div(du, u)
        elif k == "sqrt":
            r = div(du, mul(num(2), me))
        elif k == "tan":
            r = mul(add(ONE, mul(me, me)), du)
        elif k == "tanh":
            r = mul(sub(ONE, mul(me, me)), du)
        elif k in ("pow", "powf") and isinstance(A.args[1], DD) and not depends(A.args[1], aid):
            r = div(mul(mul(A.args[1], me), du), u)
        else:
            raise NotDifferentiable(k)
    memo[a] = r
    return r


def d_rat(r, aid, memo):
    n, den = mk_leaf(mk_rat(r.num, ONE_P)), mk_leaf(mk_rat(r.den, ONE_P))
    dn, dd_ = d_poly(r.num, aid, memo), d_poly(r.den, aid, memo)
    return div(sub(mul(dn, den), mul(n, dd_)), mul(den, den))


def d(x, aid, memo=None):
    """derivative of x with respect to atom aid, case by case (the switching points have measure zero)"""
    memo = {} if memo is None else memo
    if x.var is not None:
        for a in CONDS[x.var].args:
            pass
        return mk_node(x.var, d(x.hi, aid, memo), d(x.lo, aid, memo))
    if not isinstance(x.leaf, Rat):
        raise NotDifferentiable(type(x.leaf).__name__)
    return d_rat(x.leaf, aid, memo)
