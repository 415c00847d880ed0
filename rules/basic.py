from .core import *


def C06(ctx):
    ctx.rule("Value-flow summary of ConvergenceTolerance::is_converged compared both ways with |new-old| < abs and "
             "|(new-old)/old| < rel; float comparisons are three-valued (negative, zero, positive) plus unordered, so "
             "negated comparisons that would accept NaN are distinguished.")
    did = ctx.find("types::ConvergenceTolerance::is_converged")
    p = ctx.p

    def go(I):
        ps = p.bodies[did]["params"]
        tol = I.symbol("tol", p.ty(ps[0]["ty"]))
        old, new = (I.symbol(n, p.ty(x["ty"])) for n, x in zip(("old", "new"), ps[1:]))
        return tol, old, new, I.call_fn(did, [tol, old, new], {})

    I, (tol, old, new, v) = ctx.analyse(go)
    t = I.deref(tol)
    req = converged(old, new, t)
    w = ctx.loc(did)
    ctx.entails("converged implies both changes are below tolerance", v, req, w,
                "converged is reported when %s" % short(v, 300))
    ctx.entails("both changes below tolerance imply converged", req, v, w,
                "not reported converged although both hold; converged iff %s" % short(v, 300))
    # every comparison of successive temperatures goes through the same criterion
    for nm in ("abs", "rel"):
        ctx.ob("the %s tolerance is used" % nm, t.fields[nm].leaf and any(
            a in atoms_of(c) for x in dd_vars(v) for c in CONDS[x].args for a in atoms_of(t.fields[nm])), w,
            "the tolerance does not influence the verdict")
