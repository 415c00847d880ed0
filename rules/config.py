"""Rules about configuration documents and the settings derived from them."""
from .core import *
from .models import entry, LONG
from sa.values import vsubst, restrict


def conversion(ctx, src, dst):
    """the method of `impl From<src> for dst`"""
    a, b = ctx.adt(src), ctx.adt(dst)
    for tr, ims in ctx.p.impl_by_trait.items():
        if ctx.p.path(tr) not in ("std::convert::From", "std::convert::Into"):
            continue
        fwd = ctx.p.path(tr).endswith("From")
        for im in ims:
            t = ctx.p.ty(im["self"])
            x = ctx.p.ty(im["targs"][1]) if len(im.get("targs", [])) > 1 else None
            if not x or t[0] != "adt" or x[0] != "adt":
                continue
            if (t[1], x[1]) == ((b, a) if fwd else (a, b)):
                return im["items"][0]["id"]
    raise Missing("conversion of %s into %s" % (src, dst))


def variants(ctx, adt):
    return [(v["name"], [f["name"] for f in v["fields"]]) for v in ctx.p.adts[ctx.adt(adt)]["variants"]]


# ------------------------------------------------------------------ C21
def C21(ctx):
    ctx.rule("Value-flow summary of the conversion of an arbitrary legacy configuration: for every legacy model variant "
             "the result must be that variant with the same payload; every tolerance, the resolution and the conditions "
             "must land in their own slots, and both iteration limits must be the published default.")
    p = ctx.p
    fn = conversion(ctx, "config::Legacy", "config::Config")
    w = ctx.loc(fn)

    def go(I):
        L = I.symbol("legacy", ctx.adt_ty("config::Legacy"))
        return L, I.freeze(I.call_fn(fn, [L], {}))

    I, (L, R) = ctx.analyse(go)
    for e in I.events:
        if e["kind"] in ("panic", "index"):
            ctx.ob("every legacy configuration converts", e["guard"] is FALSE, str(e["site"]), "can panic")
    for kind in ("chx", "hhx", "regen", "ws"):
        src, dst = at(L, kind), at(R, "engine", "components", kind)
        have = [n for n, _ in variants(ctx, kind + "::Config")]
        for v, fs in variants(ctx, kind + "::LegacyConfig"):
            g = I.is_variant(src, v)
            nm = "%s %s" % (v, LONG[kind])
            ctx.count("legacy model choices")
            if not ctx.ob("the %s exists in both formats" % nm, v in have, w, "no such choice in the new format"):
                continue
            ok = ctx.entails("a legacy %s stays that model" % nm, g, I.is_variant(dst, v), w,
                             "converted to %s" % short(restrict(dst, g), 160) if isinstance(dst, DD) else "")
            if ok:
                for f in fs:
                    ctx.same("a legacy %s keeps its parameters" % nm,
                             restrict_v(I.variant_field(restrict_v(dst, g), v, f), g),
                             I.variant_field(src, v, f), w, g)
    # fluids
    src, dst = at(L, "fluid"), at(R, "engine", "fluid")

    def fluid(tag, g, gas, model):
        ok = ctx.entails("%s keeps its gas" % tag, g, I.is_variant(dst, gas), w,
                         "converted to %s" % short(restrict_v(dst, g), 160))
        if ok:
            m = I.variant_field(restrict_v(dst, g), gas, "0")
            ctx.entails("%s keeps its property model" % tag, g, I.is_variant(m, model), w,
                        "model %s" % short(restrict_v(m, g), 160))

    known = {"Hydrogen": None, "RealGasRefprop": "RefProp", "IdealGas": "IdealGas"}
    for v, fs in variants(ctx, "fluid::LegacyConfig"):
        g = I.is_variant(src, v)
        ctx.count("legacy model choices")
        if v == "Hydrogen" and not fs:
            fluid("legacy Hydrogen", g, "Hydrogen", "Custom")
        elif v in known:
            opt = at(I.variant_field(src, v, "0"), "name")
            for n, _ in variants(ctx, "fluid::LegacyFluidOption"):
                fluid("legacy %s %s" % (v, n), band(g, I.is_variant(opt, n)), n, known[v])
        else:
            ctx.ob("legacy fluid %s is known" % v, False, w, "no rule for this choice")
    # solver and conditions
    S, LS = at(R, "solver"), at(L, "solver")
    for a, b in (("inner_loop", "inner_loop_tolerance"), ("outer_loop", "outer_loop_tolerance"),
                 ("ode", "ode_tolerance")):
        for k, nm in (("abs", "absolute"), ("rel", "relative")):
            ctx.same("%s %s tolerance" % (a.replace("_", " "), nm), at(S, a, "tolerance", k), at(LS, b, k), w)
    ctx.same("time resolution", at(S, "ode", "num_timesteps"), at(LS, "time_resolution"), w)
    dv = default_iterations(ctx)
    for a in ("inner_loop", "outer_loop"):
        ctx.same("the %s gets the default iteration limit" % a.replace("_", " "), at(S, a, "max_iterations"), dv, w)
    for a, b in (("temp_sink", "T_cold"), ("temp_source", "T_hot"), ("pres_zero", "P_0")):
        ctx.same("%s is the legacy %s" % (a, b), at(R, "conditions", a), at(L, "conditions", b), w)


def restrict_v(v, g):
    return restrict(v, g) if isinstance(v, DD) else v



def default_iterations(ctx):
    d = ctx.find("types::DEFAULT_MAX_ITERS", False)
    if d is None or d not in ctx.p.bodies:
        return num(20)
    I = ctx.interp()
    return I.freeze(I.call_fn(d, [], {}))


# ------------------------------------------------------------------ C22
ROLES = {
    "C01": ("Ok implies",),
    "C03": ("success implies a verified cyclic", "time-zero pressure"),
    "C07": ("attempts are bounded",),
    "C12": ("the integrator uses the configured",),
    "C13": ("the step divides",),
    "C18": ("temperature is the configured one", "update keeps the"),
}
SLOTS = (
    ("settings", ("loop_tol", "inner", "abs"), ("solver", "inner_loop", "tolerance", "abs")),
    ("settings", ("loop_tol", "inner", "rel"), ("solver", "inner_loop", "tolerance", "rel")),
    ("settings", ("loop_tol", "outer", "abs"), ("solver", "outer_loop", "tolerance", "abs")),
    ("settings", ("loop_tol", "outer", "rel"), ("solver", "outer_loop", "tolerance", "rel")),
    ("settings", ("ode_tol", "abs"), ("solver", "ode", "tolerance", "abs")),
    ("settings", ("ode_tol", "rel"), ("solver", "ode", "tolerance", "rel")),
    ("settings", ("max_iters", "inner"), ("solver", "inner_loop", "max_iterations")),
    ("settings", ("max_iters", "outer"), ("solver", "outer_loop", "max_iterations")),
    ("settings", ("resolution",), ("solver", "ode", "num_timesteps")),
    ("inputs", ("pres_zero",), ("conditions", "pres_zero")),
    ("inputs", ("temp_sink",), ("conditions", "temp_sink")),
    ("inputs", ("temp_source",), ("conditions", "temp_source")),
)


def entries(ctx):
    """public functions that start a run from a configuration"""
    from .run import callees
    p = ctx.p
    run = ctx.find("engine::Engine::<T>::run")
    out = []
    for did in p.bodies:
        d = p.defs.get(did) or {}
        if d.get("kind") in ("Fn", "AssocFn") and "sig" in d and "Public" in str(d.get("vis")) \
                and run in callees(ctx, did):
            out.append(p.path(did))
    if not out:
        raise Missing("a public function that runs a configuration")
    return out


def C22(ctx):
    import rules
    from sa.ctx import Ctx
    ctx.rule("(1) Value flow from the configuration to the settings and inputs of the run, slot by slot, for every "
             "function that runs a configuration. (2) Role of each slot inside the run: the outer and inner tolerances "
             "must guard success of their own comparison, the iteration limits must bound their own loop, the "
             "integration tolerances, the resolution, the sink and source temperatures and the time-zero pressure must "
             "reach the integrator, the sampling step and the returned state.")
    for n in entries(ctx):
        E = entry(ctx, n)
        tag = " (%s)" % n.rsplit("::", 1)[-1]
        for a, path, src in SLOTS:
            ctx.same("%s becomes the run's %s%s" % (".".join(src), ".".join(path), tag), at(E.args[a], *path),
                     at(E.cfg, *src), E.site, E.guard)
    # constructors used by library callers
    for path in ("types::OdeTolerance::new", "types::ConvergenceTolerance::new"):
        did = ctx.find(path, False)
        if did is None:
            continue

        def go(I):
            ps = ctx.p.bodies[did]["params"]
            a = [I.symbol(k, ctx.p.ty(x["ty"])) for k, x in zip(("abs", "rel"), ps)]
            return a, I.freeze(I.call_fn(did, a, {}))

        I, (a, v) = ctx.analyse(go)
        for k, x in zip(("abs", "rel"), a):
            ctx.same("%s keeps the %s tolerance" % (path.split("::", 1)[1], k), at(v, k), x, ctx.loc(did))
    # roles inside the run
    for c, keep in ROLES.items():
        sub = Ctx(ctx.prop, ctx.tier, ctx.seed)
        sub.p, sub.cache = ctx.p, ctx.cache
        rules.ALL[c](sub)
        n = 0
        for o in sub.obs:
            if any(k in o["key"] for k in keep):
                ctx.obs.append(o)
                n += 1
        ctx.analysed |= sub.analysed
        ctx.count("roles inside the run", n)
        for k in keep:
            ctx.ob("role checked: %s" % k, any(k in o["key"] for o in sub.obs), "", "nothing to check was found")
