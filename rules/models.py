"""Rules about the component and fluid models, as reached from a configuration."""
from .core import *
from sa import diff
from sa.diff import NotDifferentiable
from sa.values import vsubst, restrict, Boxed
from sa.equal import dd_vars
from fractions import Fraction
import mpmath
from sa import equal as EQ


class Entry(Core):
    """a function that runs a configuration: what it hands to Engine::run"""
    DYN = [("other", "dyn")]

    def __init__(self, ctx, path="api::run_engine", also=()):
        self.ctx = ctx
        p = ctx.p
        self.fn = ctx.find(path)
        self.run = ctx.find("engine::Engine::<T>::run")
        cty = ctx.adt_ty("config::Config")
        self.where = ctx.loc(self.fn)

        def go(I):
            ps = p.bodies[self.fn]["params"]
            sub = {}
            for x in ps:
                t = p.ty(x["ty"])
                if t[0] == "param":
                    sub[t[1]] = cty
            self.cfg = I.symbol("cfg", cty)
            return I.freeze(I.call_fn(self.fn, [self.cfg], sub))

        self.I, self.v = ctx.analyse(go, {d: True for d in (self.run,) + tuple(also)})
        ev_ = [e for e in self.I.events if e["kind"] == "call" and e["callee"] == self.run]
        self.runs = ev_
        if not ev_:
            raise Missing("call of Engine::run from %s" % p.path(self.fn))
        ctx.count("runs started by %s" % p.path(self.fn), len(ev_))
        self.panics = [e for e in self.I.events if e["kind"] == "panic"]
        self.args = {}
        ptr = {"comps": ctx.adt("engine::Components"), "inputs": ctx.adt("types::RunInputs"),
               "settings": ctx.adt("types::RunSettings")}
        e = ev_[0]
        for a in e["args"]:
            a = unbox(a) if isinstance(a, DD) and a.var is None and not is_num(a) else a
            nm = "fluid"
            for k, q in ptr.items():
                if isinstance(a, Struct) and a.adt == q:
                    nm = k
            self.args[nm] = a
        self.comps = self.args["comps"]
        self.guard = e["guard"]
        self.site = str(e["site"])

    def choice(self, kind):
        c = self.cfg
        return at(c, "engine", "fluid") if kind == "fluid" else at(c, "engine", "components", kind)

    def variants(self, kind):
        adt = {"chx": "chx::Config", "hhx": "hhx::Config", "regen": "regen::Config", "ws": "ws::Config",
               "fluid": "fluid::Config"}[kind]
        return [v["name"] for v in self.ctx.p.adts[self.ctx.adt(adt)]["variants"]]

    def under(self, kind, variant):
        """(guard, parameters) of a run with that choice; the other choices are arbitrary"""
        g = band(self.guard, self.I.is_variant(self.choice(kind), variant))
        p = None
        if g is not FALSE:
            try:
                p = self.I.variant_field(self.choice(kind), variant, "0")
                p = unbox(p) if isinstance(p, DD) and p.var is None and not is_num(p) else p
            except KeyError:
                p = None
        return g, p

    def method(self, kind, name, guard, st=None):
        """result of a trait method of the component chosen under guard"""
        did = self.ctx.tmethod(self.TR[kind] + "::" + name)
        obj = self.comps.fields[kind]
        if isinstance(obj, DD) and obj.var is not None:
            obj = restrict(obj, guard)
        a = [obj] + ([st] if st is not None else [])
        return self.c(self.TR[kind] + "::" + name, *a)

    def state(self, kind, tag="st"):
        adt = {"chx": "chx::State", "hhx": "hhx::State", "regen": "regen::State", "ws": "ws::State"}[kind]
        return self.I.symbol(tag, self.ctx.adt_ty(adt))

    def motion(self, guard, st, t):
        """((Vc, dVc), (Ve, dVe)) at time t"""
        f = self.method("ws", "volumes", guard, st)
        from sa.interp import State
        self.I.st = State(dict(self.I.st.store), TRUE, False)
        n = len(self.I.events)
        r = self.I.freeze(self.I.apply(f, [t]))
        del self.I.events[n:]
        return [(at(r, str(i), "value"), at(r, str(i), "deriv")) for i in (0, 1)]

    def loc(self, kind, variant):
        d = self.impl(kind, variant)
        return self.ctx.p.path(d) if d else self.where

    def impl(self, kind, variant):
        g, _ = self.under(kind, variant)
        o = self.comps.fields[kind]
        o = restrict(o, g) if isinstance(o, DD) else o
        ls = {self.adt_of(l) for _, l in leaves(o)} if isinstance(o, DD) else {self.adt_of(o)}
        ls.discard(None)
        return ls.pop() if len(ls) == 1 else None

    def adt_of(self, l):
        if isinstance(l, Boxed):
            l = l.v
        if isinstance(l, DD) and l.var is None:
            l = unbox(l)
        return l.adt if isinstance(l, Struct) else None


def entry(ctx, path="api::run_engine", also=()):
    k = ("entry", path, tuple(also))
    if k not in ctx.cache:
        ctx.cache[k] = Entry(ctx, path, also)
    return ctx.cache[k]


HXS = ("chx", "regen", "hhx")
LONG = {"chx": "cold heat exchanger", "hhx": "hot heat exchanger", "regen": "regenerator", "ws": "working spaces"}


def ntu_approach(kind, UA, st):
    h = st.fields["hxr"].fields
    C = h["cp"] * h["m_dot"]
    ntu = UA / C
    if kind == "regen":
        eff = (ntu * HALF) / (ONE + ntu * HALF)
        return (ONE - eff) * (st.fields["temp_hhx"] - st.fields["temp_chx"])
    eff = ONE - T.exp(ZERO - ntu)
    return (h["Q_dot"] / C) * (ONE / eff - ONE)


def parasitics_of(kind, q):
    f = q.fields
    return {"mechanical": f.get("W_parasitic", ZERO), "thermal": f.get("Q_parasitic", ZERO), "electrical": ZERO}


def implemented(ctx, E, kind, need):
    out = []
    for v in E.variants(kind):
        g, q = E.under(kind, v)
        if g is FALSE:
            continue
        if v in need:
            out.append((v, g, q))
    for v in need:
        ctx.ob("%s of the %s can be run" % (v, LONG[kind]), v in [x[0] for x in out], E.where,
               "the choice never reaches a run")
    return out


def C17(ctx):
    E = entry(ctx)
    ctx.rule("For every implemented exchanger model, built from a symbolic configuration through the public entry point "
             "and also from symbolic constructor arguments, the value-flow terms of approach, initial approach, volume, "
             "hydraulic resistance and parasitics are compared with the required ones over a symbolic component state.")
    for kind in HXS:
        for v, g, q in implemented(ctx, E, kind, ("FixedApproach", "FixedConductance")):
            st = E.state(kind)
            w = E.loc(kind, v)
            nm = "%s %s" % (v, LONG[kind])
            f = q.fields
            got = E.method(kind, "approach", g, st)
            if v == "FixedApproach":
                ctx.same("%s reports its configured approach" % nm, got, f["DT"], w, g)
                ctx.same("%s starts from its configured approach" % nm, E.method(kind, "initial_approach", g), f["DT"], w, g)
            else:
                ctx.same("%s reports the effectiveness-NTU approach" % nm, got, ntu_approach(kind, f["UA"], st), w, g)
            ctx.same("%s has its configured volume" % nm, E.method(kind, "volume", g), f["vol"], w, g)
            ctx.same("%s has its configured hydraulic resistance" % nm,
                     E.method(kind, "hydraulic_resistance", g, st), f["R_hyd"], w, g)
            pw = E.method(kind, "parasitics", g, st)
            for k, x in parasitics_of(kind, q).items():
                ctx.same("%s has its configured %s losses" % (nm, k), at(pw, k), x, w, g)
    constructors(ctx, E)


def constructors(ctx, E):
    """public `new` functions, by the names of their parameters"""
    p = ctx.p
    for kind in HXS:
        tr = ctx.find(E.TR[kind])
        for im in p.impl_by_trait.get(tr, ()):
            t = p.ty(im["self"])
            if t[0] != "adt":
                continue
            for did, b in list(p.bodies.items()):
                d = p.defs.get(did) or {}
                if d.get("name") != "new" or "sig" not in d or p.path(did) != p.path(t[1]) + "::new":
                    continue
                names = [x["pat"].get("name") for x in b["params"]]
                if not set(names) <= {"volume", "R_hyd", "UA", "approach", "parasitics"}:
                    continue
                J = {}

                def go(I, did=did, b=b, names=names, J=J):
                    a = {n: I.symbol(n, p.ty(x["ty"])) for n, x in zip(names, b["params"])}
                    J.update(a)
                    o = I.freeze(I.call_fn(did, [a[n] for n in names], {}))
                    st = I.symbol("st", ctx.adt_ty({"chx": "chx::State", "hhx": "hhx::State", "regen": "regen::State"}[kind]))
                    J["st"] = st
                    out = {}
                    for m in ("volume", "hydraulic_resistance", "parasitics", "approach", "initial_approach"):
                        md = ctx.tmethod(E.TR[kind] + "::" + m)
                        args = [I.ref(o)] + ([I.ref(st)] if len(p.defs[md]["sig"][0]) > 1 else [])
                        out[m] = I.freeze(ctx.call(I, md, args, [t]))
                    return out

                I, out = ctx.analyse(go)
                w = ctx.loc(did)
                nm = "%s::new" % p.path(t[1])
                ctx.count("constructors")
                ctx.same("%s keeps the volume" % nm, out["volume"], J["volume"], w)
                ctx.same("%s keeps the hydraulic resistance" % nm, out["hydraulic_resistance"], J["R_hyd"], w)
                ctx.same("%s keeps the parasitics" % nm, out["parasitics"], J["parasitics"], w)
                if "approach" in J:
                    ctx.same("%s keeps the approach" % nm, out["approach"], J["approach"], w)
                    ctx.same("%s starts from its approach" % nm, out["initial_approach"], J["approach"], w)
                if "UA" in J:
                    ctx.same("%s uses its conductance" % nm, out["approach"],
                             ntu_approach(kind, J["UA"], unbox(J["st"]) if isinstance(J["st"], DD) else J["st"]), w)


# ------------------------------------------------------------------ C19
def sinusoidal(f, t):
    w = num_pi() * 2 * f["frequency"]
    th, ph = w * t, f["phase_angle"] * num_pi() / 180
    s = lambda clr, sw, a: (clr + sw * HALF * (ONE + T.cos(a)), ZERO - sw * HALF * T.sin(a) * w)
    return s(f["V_clearance_c"], f["V_swept_c"], th), s(f["V_clearance_e"], f["V_swept_e"], th + ph)


def num_pi():
    from sa.models import PI
    return PI


def rhombic(f, t):
    w = num_pi() * 2 * f["frequency"]
    th = w * t
    e, r, L = f["eccentricity"], f["r_crank"], f["L_conn"]
    Ap, Ad = num_pi() * f["D_p"] * f["D_p"] / 4, num_pi() * f["D_d"] * f["D_d"] / 4
    c, s = T.cos(th), T.sin(th)
    b = T.sqrt(L * L - (e + r * c) * (e + r * c))
    b1 = T.sqrt(L * L - (e - r) * (e - r))
    b2 = T.sqrt((L - r) * (L - r) - e * e)
    db = r * s * (e + r * c) / b
    return ((f["V_clearance_c"] + 2 * Ap * (b1 - b), ZERO - 2 * Ap * db * w),
            (f["V_clearance_e"] + Ad * (b - b2 - r * s), Ad * (db - r * c) * w))


MOTION = {"Sinusoidal": sinusoidal, "Rhombic": rhombic}


def C19(ctx):
    E = entry(ctx)
    ctx.rule("Behaviour of each implemented component as a function of its configuration section, traced from the public "
             "entry point: each trait method's value-flow term must be the named parameter (or, for the piston motion, "
             "the drive kinematics in the named parameters), and every parameter of the section must occur in some "
             "behaviour.")
    for kind in HXS:
        for v, g, q in implemented(ctx, E, kind, ("FixedApproach", "FixedConductance")):
            st = E.state(kind)
            w = E.loc(kind, v)
            f = q.fields
            beh = {"vol": [("volume", E.method(kind, "volume", g))],
                   "R_hyd": [("hydraulic resistance", E.method(kind, "hydraulic_resistance", g, st))],
                   "DT": [("approach", E.method(kind, "approach", g, st)),
                          ("initial approach", E.method(kind, "initial_approach", g))] if v == "FixedApproach" else []}
            pw = E.method(kind, "parasitics", g, st)
            beh["W_parasitic"] = [("mechanical losses", at(pw, "mechanical"))]
            beh["Q_parasitic"] = [("thermal losses", at(pw, "thermal"))]
            for k, bs in beh.items():
                for what, got in bs:
                    req = f.get(k)
                    if req is None:
                        req = ZERO
                    ctx.same("%s of the %s %s" % (what, v, LONG[kind]), got, req, w, g)
            if v == "FixedConductance":
                ctx.same("approach of the %s %s" % (v, LONG[kind]), E.method(kind, "approach", g, st),
                         ntu_approach(kind, f["UA"], st), w, g)
            used(ctx, "%s %s" % (v, LONG[kind]), f, [x for bs in beh.values() for x in bs] +
                 [("approach", E.method(kind, "approach", g, st))], g, w)
    for v, g, q in implemented(ctx, E, "ws", ("Sinusoidal", "Rhombic")):
        st = E.state("ws")
        w = E.loc("ws", v)
        f = q.fields
        t = sym("t")
        mo = E.motion(g, st, t)
        req = MOTION[v](f, t)
        for i, nm in ((0, "compression"), (1, "expansion")):
            ctx.same("%s volume of the %s drive" % (nm, v), mo[i][0], req[i][0], w, g)
            ctx.same("%s volume rate of the %s drive" % (nm, v), mo[i][1], req[i][1], w, g)
        fr = E.method("ws", "frequency", g, st)
        ctx.same("frequency of the %s drive" % v, fr, f["frequency"], w, g)
        tr = E.method("ws", "thermal_resistance", g, st)
        ctx.same("compression-space thermal resistance of the %s drive" % v, at(tr, "comp"), f["R_c"], w, g)
        ctx.same("expansion-space thermal resistance of the %s drive" % v, at(tr, "exp"), f["R_e"], w, g)
        pw = E.method("ws", "parasitics", g, st)
        pq = {("comp", "mechanical"): f["W_parasitic_c"], ("comp", "thermal"): ZERO,
              ("exp", "mechanical"): f["W_parasitic_e"], ("exp", "thermal"): f["Q_parasitic_e"]}
        for (s, k), x in pq.items():
            ctx.same("%s-space %s losses of the %s drive" % ({"comp": "compression", "exp": "expansion"}[s], k, v),
                     at(pw, s, k), x, w, g)
        used(ctx, "%s drive" % v, f, [("", x) for m in mo for x in m] + [("", fr)] +
             [("", at(tr, s)) for s in ("comp", "exp")] + [("", at(pw, s, k)) for s, k in pq], g, w)


def used(ctx, nm, f, behs, g, w):
    ids = set()
    for _, b in behs:
        ids |= atoms_of(restrict(b, g) if isinstance(b, DD) and b.var is not None else b)
    for k, x in f.items():
        ctx.ob("%s.%s has an effect" % (nm, k), bool(set(T.rat_atoms(x.leaf)) & ids) if is_num(x) and x.var is None
               else True, w, "the parameter influences no behaviour of the component")


# ------------------------------------------------------------------ C16
def trig_args(d, aid):
    """top-level trigonometric atoms of a term that depend on atom aid; None if something else depends on it"""
    out, seen = set(), set()
    bad = []

    def go(x):
        for n in nodes_(x):
            if n.var is not None:
                for a in CONDS[n.var].args:
                    if isinstance(a, DD):
                        go(a)
            elif isinstance(n.leaf, Rat):
                for a in T.rat_atoms(n.leaf):
                    A = ATOMS[a]
                    if a == aid:
                        bad.append(A)
                    elif a in seen:
                        continue
                    seen.add(a)
                    if A.kind in ("sin", "cos") and diff.depends(A.args[0], aid):
                        out.add(a)
                    else:
                        for y in A.args:
                            if isinstance(y, DD) and diff.depends(y, aid):
                                go(y)
    go(d)
    return out, bad


def nodes_(d):
    st, seen = [d], set()
    while st:
        n = st.pop()
        if n.id in seen:
            continue
        seen.add(n.id)
        yield n
        if n.var is not None:
            st += [n.hi, n.lo]


def C16(ctx):
    E = entry(ctx)
    ctx.rule("Symbolic differentiation of each implemented drive's volume terms with respect to time compared with the "
             "reported rates; periodicity from the arguments of the trigonometric terms through which alone time enters; "
             "range from the volume terms at the extreme positions of the mechanism.")
    for v, g, q in implemented(ctx, E, "ws", ("Sinusoidal", "Rhombic")):
        st = E.state("ws")
        w = E.loc("ws", v)
        t = sym("t")
        ta = ATOMS[aid(t)]
        fr = E.method("ws", "frequency", g, st)
        mo = [[restrict(x, g) if x.var is not None else x for x in m] for m in E.motion(g, st, t)]
        fr = restrict(fr, g)
        f = q.fields
        for i, nm in ((0, "compression"), (1, "expansion")):
            V, dV = mo[i]
            who = "%s volume of the %s drive" % (nm, v)
            try:
                D = diff.d(V, ta.id)
                ctx.same("rate is the time derivative: %s" % who, dV, D, w, g)
            except NotDifferentiable as x:
                ctx.ob("rate is the time derivative: %s" % who, False, w, "not differentiable through %s" % x)
            ctx.ob("time moves the %s" % who, diff.depends(V, ta.id), w, "the volume does not depend on time")
            for x, what in ((V, "volume"), (dV, "rate")):
                tr, bad = trig_args(x, ta.id)
                ctx.ob("time enters the %s of %s periodically" % (what, who), not bad, w,
                       "time enters outside a trigonometric function")
                for a in tr:
                    arg = ATOMS[a].args[0]
                    sh = vsubst(arg, {ta.id: t + ONE / fr}) - arg
                    k = sh / (2 * num_pi())
                    ctx.ob("%s of %s repeats with the reported period" % (what, who), is_integer(k, g), w,
                           "the argument advances by %s turns in one reported period" % short(k, 80))
            extremes(ctx, v, who, nm, V, f, ta, t, fr, w, g)


def is_integer(k, g):
    for gg, l in leaves(k):
        if band(gg, g) is FALSE:
            continue
        if not isinstance(l, Rat):
            return False
        if l.is_const():
            c = l.const()
            if abs(c - round(c)) > Fraction(1, 10 ** 12) or round(c) == 0:
                return False
            continue
        # decided numerically under random interpretations
        from sa.equal import ev
        vals = []
        for s in range(1, 6):
            try:
                vals.append(mpmath.mpf(ev(mk_leaf(l), s)))
            except TypeError:
                continue
        if not vals or any(abs(x - mpmath.nint(x)) > 1e-15 or mpmath.nint(x) == 0 for x in vals):
            return False
    return True


def extremes(ctx, v, who, nm, V, f, ta, t, fr, w, g):
    tr, _ = trig_args(V, ta.id)
    s = "c" if nm == "compression" else "e"
    clr = f["V_clearance_" + s]
    if v == "Sinusoidal":
        ok = len(tr) == 1
        if not ctx.ob("one harmonic moves the %s" % who, ok, w, "%d trigonometric terms" % len(tr)):
            return
        a = next(iter(tr))
        lo, hi = vsubst(V, {a: num(-1)}), vsubst(V, {a: ONE})
        ends = [(lo, hi), (hi, lo)]
        # affine in the harmonic: the extremes of the harmonic are the extremes of the volume
        mid = vsubst(V, {a: ZERO})
        ctx.same("the %s is affine in its harmonic" % who, mid * 2, lo + hi, w, g)
        okk = any(equal(x, clr, g) and equal(y, clr + f["V_swept_" + s], g) for x, y in ends)
        ctx.ob("the %s moves between clearance and clearance plus swept volume" % who, okk, w,
               "extremes are %s and %s" % (short(lo, 80), short(hi, 80)))
        return
    # rhombic: geometry with r < e < L - r, so that every root is real; extreme positions by cos/sin of the crank angle
    r, e, L = (f[k] for k in ("r_crank", "eccentricity", "L_conn"))
    ra, ea, La = (sym(n) for n in ("geo.r", "geo.e", "geo.l"))
    from sa.equal import POSITIVE
    for x in (ra, ea, La):  # lengths: roots of perfect squares fold
        POSITIVE.add(next(iter(x.leaf.num))[0][0])
    geo = {aid(e): ra + ea, aid(L): 2 * ra + ea + La, aid(r): ra}
    R_, E_, L_ = ra, ra + ea, 2 * ra + ea + La
    A = num_pi() * (f["D_p"] * f["D_p"] if s == "c" else f["D_d"] * f["D_d"]) / 4
    if s == "c":
        pos = {"lo": (num(-1), ZERO), "hi": (ONE, ZERO)}
        span = 2 * A * (T.sqrt(L_ * L_ - (E_ - R_) * (E_ - R_)) - T.sqrt(L_ * L_ - (E_ + R_) * (E_ + R_)))
    else:
        b2 = T.sqrt((L_ - R_) * (L_ - R_) - E_ * E_)
        b3 = T.sqrt((L_ + R_) * (L_ + R_) - E_ * E_)
        pos = {"lo": (E_ / (L_ - R_), b2 / (L_ - R_)), "hi": (ZERO - E_ / (L_ + R_), ZERO - b3 / (L_ + R_))}
        span = A * (b3 - b2)
    for k, (c, sn) in pos.items():
        m = {}
        for a in tr:
            K = ATOMS[a]
            sg = ONE
            base = T.cos(2 * num_pi() * fr * t) if K.kind == "cos" else T.sin(2 * num_pi() * fr * t)
            if equal(num_atom(K), base, g):
                m[a] = c if K.kind == "cos" else sn
            elif equal(num_atom(K), ZERO - base, g):
                m[a] = ZERO - (c if K.kind == "cos" else sn)
            else:
                ctx.ob("the %s follows the crank angle" % who, False, w, "moved by %s" % short(num_atom(K), 80))
                return
        X = vsubst(vsubst(V, m), geo)
        ctx.same("the %s is %s at its %s position" % (who, "the clearance volume" if k == "lo" else "the geometric maximum",
                                                      "innermost" if k == "lo" else "outermost"),
                 X, clr if k == "lo" else clr + span, w, g)


def aid(d):
    (m, c), = d.leaf.num.items()
    return m[0][0]


# ------------------------------------------------------------------ C15
GASES = {"Helium": 8314.462618 / 4.002602, "Hydrogen": 8314.462618 / 2.01588}
POINTS = ((300, 100000), (600, 1000000), (1100, 10000000), (50, 1000), (150, 200000), (2000, 500000), (5000, 30000), (10000, 10 ** 9))


def residual_sig(r, Ta, Pa, g):
    """a residual's values at fixed conditions, to tell one discrepancy from another: only of a residual that is one
    formula for all conditions, which its values at these conditions then identify"""
    one = [mk_leaf(l) for _, l in leaves(r)]
    if len(one) > 1:
        one = [l for l in one if equal(r, l, g)][:1]
    if not one or EQ.switches(one):
        return "differs between ranges of temperature or pressure"
    out = []
    for t, p in POINTS:
        x = vsubst(one[0], {Ta: num(t), Pa: num(p)})
        if x.var is not None or not isinstance(x.leaf, Rat) or not x.leaf.is_const():
            return "not a function of temperature and pressure"
        out.append("%.6g" % float(x.leaf.const()))
    return " ".join(out)


def C15(ctx):
    E = entry(ctx)
    ctx.rule("The property functions of every implemented gas are extracted as terms in temperature and pressure and "
             "differentiated symbolically; each consistency relation must hold as an identity. Discrepancies are "
             "identified by the residual's values at fixed conditions.")
    for gas in E.variants("fluid"):
        try:
            g = band(E.guard, E.I.is_variant(E.choice("fluid"), gas))
        except KeyError:
            g = FALSE
        if g is FALSE:
            continue
        ctx.count("gases")
        T_, P_ = sym("temp"), sym("pres")
        Ta, Pa = aid(T_), aid(P_)
        fl = E.args["fluid"]
        w = ctx.loc(ctx.tmethod("fluid::Fluid::dens"))
        f = {}
        for n in ("dens", "inte", "enth", "cp", "dd_dP_T", "dd_dT_P", "du_dP_T", "du_dT_P"):
            x = E.c("fluid::Fluid::" + n, fl, T_, P_)
            f[n] = restrict(x, g)
        if gas in GASES:
            R = P_ / (f["dens"] * T_)
            ok = R.var is None and isinstance(R.leaf, Rat) and R.leaf.is_const()
            ctx.ob("%s obeys the ideal gas law" % gas, ok, w, "P/(rho T) is %s" % short(R, 100))
            if ok:
                c = float(R.leaf.const())
                ctx.ob("%s has its own gas constant" % gas, abs(c / GASES[gas] - 1) < 2e-3, w,
                       "gas constant %g instead of about %g" % (c, GASES[gas]))
        rel = [("enthalpy is internal energy plus pressure over density", "enth", f["inte"] + P_ / f["dens"])]
        try:
            D = lambda n, a: diff.d(f[n], a)
            rel += [("heat capacity is the temperature derivative of enthalpy", "cp", D("enth", Ta)),
                    ("dd_dP_T is the pressure derivative of density", "dd_dP_T", D("dens", Pa)),
                    ("dd_dT_P is the temperature derivative of density", "dd_dT_P", D("dens", Ta)),
                    ("du_dP_T is the pressure derivative of internal energy", "du_dP_T", D("inte", Pa)),
                    ("du_dT_P is the temperature derivative of internal energy", "du_dT_P", D("inte", Ta))]
        except NotDifferentiable as x:
            ctx.ob("%s properties are differentiable" % gas, False, w, "not differentiable through %s" % x)
        for nm, k, req in rel:
            ok = equal(f[k], req, g)
            sig = None if ok else residual_sig(restrict(f[k] - req, g), Ta, Pa, g)
            ctx.ob("%s: %s" % (gas, nm), ok, w, "found %s, required %s" % (short(f[k], 150), short(req, 150)), sig)
            if not ok:
                ctx.notes.append("%s: %s: residual %s" % (gas, nm, sig))


# ------------------------------------------------------------------ C24
def C24(ctx):
    p = ctx.p
    ctx.rule("For every type with Default whose configuration type also has Default and converts into it, every trait "
             "method of the default component is compared with that of the component built from the default "
             "configuration, over a symbolic state (and time, for piston motion).")
    n = 0
    dt = [t for t in p.impl_by_trait if p.path(t) == "std::default::Default"]
    fr = [t for t in p.impl_by_trait if p.path(t) == "std::convert::From"]
    if not dt or not fr:
        raise Missing("Default and From implementations")
    dft = {p.ty(im["self"]): im for im in p.impl_by_trait[dt[0]]}
    kinds = {ctx.find(t): k for k, t in Core.TR.items()}
    for im in p.impl_by_trait[fr[0]]:
        me, src = p.ty(im["self"]), p.ty(im["targs"][1])
        if me not in dft or src not in dft:
            continue
        kind = [k for t, k in kinds.items() if any(p.ty(i["self"]) == me for i in p.impl_by_trait.get(t, ()))]
        if not kind:
            continue
        kind = kind[0]
        n += 1
        nm = p.path(me[1])
        dd = [x["id"] for x in dft[me]["items"] if x["id"] in p.bodies][0]
        ds = [x["id"] for x in dft[src]["items"] if x["id"] in p.bodies][0]
        cf = [x["id"] for x in im["items"] if x["id"] in p.bodies][0]

        def go(I):
            a = I.freeze(I.call_fn(dd, [], {}))
            b = I.freeze(I.call_fn(cf, [I.freeze(I.call_fn(ds, [], {}))], {}))
            st = I.symbol("st", ctx.adt_ty({"chx": "chx::State", "hhx": "hhx::State", "regen": "regen::State",
                                           "ws": "ws::State"}[kind]))
            t = sym("t")
            out = {}
            tr = ctx.find(Core.TR[kind])
            for x in p.raw["defs"]:
                if x.get("trait") == tr and "sig" in x and "impl" not in x:
                    r = []
                    for o in (a, b):
                        args = [I.ref(o)] + ([I.ref(st)] if len(x["sig"][0]) > 1 else [])
                        v = I.freeze(ctx.call(I, x["id"], args, [me]))
                        if x["name"] == "volumes":
                            v = I.freeze(I.apply(v, [t]))
                        r.append(v)
                    out[x["name"]] = r
            return out

        I, out = ctx.analyse(go)
        ctx.ob("%s has behaviours to compare" % nm, len(out) >= 4, ctx.loc(dd), "%d trait methods found" % len(out))
        for m, (a, b) in sorted(out.items()):
            ctx.same("%s: %s of the default component and of the default configuration" % (nm, m), a, b, ctx.loc(dd))
    ctx.count("models with both defaults", n)
    ctx.ob("models offer defaults", n >= 1, "", "no model with both a default component and a default configuration")


# ------------------------------------------------------------------ C20
def C20(ctx):
    p = ctx.p
    ctx.rule("Dispatch analysis of every public function that starts a run from a configuration: under each variant's "
             "guard the component or fluid handed to Engine::run must behave as the model of that name (constant or "
             "effectiveness-NTU approach, drive kinematics, gas constant) in that variant's own parameters; variants "
             "without an implementation must not reach Engine::run with behaviour.")
    names = runners(ctx)
    ctx.ob("configurations can be run", any(n.endswith("run_engine") for n in names), "", "no run_engine")
    for n in names:
        E = entry(ctx, n)
        tag = " (%s)" % n.rsplit("::", 1)[-1]
        ctx.ob("one run per configuration%s" % tag, len(E.runs) == 1, E.where, "%d runs" % len(E.runs))
        for kind in HXS:
            for v in E.variants(kind):
                dispatch(ctx, E, kind, v, tag, v in ("FixedApproach", "FixedConductance"))
        for v in E.variants("ws"):
            dispatch(ctx, E, "ws", v, tag, v in ("Sinusoidal", "Rhombic"))
        fluids(ctx, E, tag)


def runners(ctx):
    """the public functions that start a run"""
    from .run import callees
    p = ctx.p
    run = ctx.find("engine::Engine::<T>::run")
    names = []
    for did, b in p.bodies.items():
        d = p.defs.get(did) or {}
        if d.get("kind") in ("Fn", "AssocFn") and "sig" in d and "Public" in str(d.get("vis")) \
                and run in callees(ctx, did):
            names.append(p.path(did))
    return names


def dispatch(ctx, E, kind, v, tag, impl):
    g, q = E.under(kind, v)
    nm = "%s %s%s" % (v, LONG[kind], tag)
    if not impl:
        ok = g is FALSE
        det = ""
        if not ok:
            # reached: acceptable only if the component refuses to behave
            try:
                x = E.method(kind, "frequency" if kind == "ws" else "volume", g, E.state(kind) if kind == "ws" else None)
                ok = E.I.st.dead
            except (KeyError, Unsupported):
                ok = False
            det = "the choice runs as %s" % (E.loc(kind, v))
        ctx.ob("%s is refused or implemented" % nm, ok, E.site, det)
        return
    if not ctx.ob("%s runs" % nm, g is not FALSE, E.site, "the choice never reaches a run"):
        return
    st = E.state(kind)
    w = E.site
    if kind == "ws":
        t = sym("t")
        mo = E.motion(g, st, t)
        req = MOTION[v](q.fields, t)
        # the drive is recognised by its motion up to clearance
        for i, s in ((0, "compression"), (1, "expansion")):
            clr = q.fields["V_clearance_" + "ce"[i]]
            ctx.same("%s moves the %s space" % (nm, s), mo[i][0], req[i][0], w, g)
        return
    ap = E.method(kind, "approach", g, st)
    want = q.fields["DT"] if v == "FixedApproach" else ntu_approach(kind, q.fields["UA"], st)
    ctx.same("%s decides the approach" % nm, ap, want, w, g)


def fluids(ctx, E, tag):
    T_, P_ = sym("temp"), sym("pres")
    seen = {}
    for gas in E.variants("fluid"):
        gv = E.I.is_variant(E.choice("fluid"), gas)
        model = E.I.variant_field(E.choice("fluid"), gas, "0")
        mv = E.ctx.p.adts[ctx.adt("fluid::ModelConfig")]["variants"]
        for m in mv:
            g = band(band(E.guard, gv), E.I.is_variant(model, m["name"]))
            nm = "%s with the %s model%s" % (gas, m["name"], tag)
            if m["name"] != "IdealGas":
                ctx.ob("%s is refused" % nm, g is FALSE, E.site, "it runs as some other model")
                continue
            if not ctx.ob("%s runs" % nm, g is not FALSE, E.site, "the choice never reaches a run"):
                continue
            x = restrict(E.c("fluid::Fluid::dens", E.args["fluid"], T_, P_), g)
            R = P_ / (x * T_)
            ok = R.var is None and isinstance(R.leaf, Rat) and R.leaf.is_const()
            ctx.ob("%s is an ideal gas" % nm, ok, E.site, "P/(rho T) is %s" % short(R, 80))
            if ok and gas in GASES:
                c = float(R.leaf.const())
                ctx.ob("%s is that gas" % nm, abs(c / GASES[gas] - 1) < 2e-3, E.site,
                       "gas constant %g, expected about %g" % (c, GASES[gas]))
            cp = restrict(E.c("fluid::Fluid::cp", E.args["fluid"], num(300), P_), g)
            if gas in GASES and cp.var is None and cp.leaf.is_const():
                c = float(cp.leaf.const())
                k = {"Helium": 5193.0, "Hydrogen": 14310.0}[gas]
                ctx.ob("%s has that gas's heat capacity" % nm, abs(c / k - 1) < 2e-2, E.site,
                       "cp(300 K) is %g, expected about %g" % (c, k))
