"""Rules about the figures reported for a finished run."""
from .core import *
from .run import from_engine, same_first
from sa.values import app_atom
from sa import equal as EQ


class Reported(Core):
    """RunResults::from over an arbitrary engine whose series share one arbitrary length"""

    def __init__(self, ctx):
        self.ctx = ctx
        p = ctx.p
        self.fn = from_engine(ctx)
        self.where = ctx.loc(self.fn)
        en = ctx.adt("engine::Engine")

        def go(I):
            t = p.ty(p.bodies[self.fn]["params"][0]["ty"])
            e = I.symbol("engine", t)
            e = unbox(e) if isinstance(e, DD) else e
            v = e.fields["values"]
            v = unbox(v) if isinstance(v, DD) else v
            n = T.sym("n", True)
            EQ.LEAST[next(iter(n.leaf.num))[0][0]] = 2
            f = {}
            for k, x in v.fields.items():
                base = app_atom("engine.values." + k, ())
                f[k] = series(n, lambda i, base=base: num_atom(app_atom("at", (base, i))))
            e = Struct(e.adt, dict(e.fields, values=Struct(v.adt, f)))
            self.E = e
            self.n = n
            return I.freeze(I.call_fn(self.fn, [e], {}))

        self.I, self.R = ctx.analyse(go)
        R = self.R
        self.R = unbox(R) if isinstance(R, DD) and R.var is None else R
        self.st = at(self.E, "state")
        self.comps = at(self.E, "components")
        self.args = {"comps": self.comps, "fluid": self.st.fields["fluid"]}
        self.v = at(self.E, "values")
        st = self.st
        self.freq = self.q("ws", "frequency")
        self.par = {k: self.q(k, "parasitics") for k in ("chx", "regen", "hhx", "ws")}
        self.volf = self.q("ws", "volumes")
        ctx.trusted.append("components and fluid are arbitrary pure functions of the arguments they are given")

    def q(self, kind, m):
        return self.comp(kind, m, self.comps, self.st)

    def rates(self, i):
        from sa.interp import State
        I = self.I
        I.st = State(dict(I.st.store), TRUE, False)
        n = len(I.events)
        r = I.freeze(I.apply(self.volf, [self.v.fields["time"].elem(i)],
                             ("tuple", (self.ctx.adt_ty("ws::CompVolume"), self.ctx.adt_ty("ws::ExpVolume")))))
        del I.events[n:]
        return at(r, "0", "deriv"), at(r, "1", "deriv")

    def drop(self, i):
        v = {k: x.elem(i) for k, x in self.v.fields.items()}
        P = v["P"]
        fl = self.args["fluid"]
        one = lambda kind, a, b, t: self.q(kind, "hydraulic_resistance") * HALF * (v[a] + v[b]) / \
            self.c("fluid::Fluid::dens", fl, t, P)
        st = self.st
        return one("chx", "m_dot_ck", "m_dot_kr", at(st, "temp", "chx")) + \
            one("regen", "m_dot_kr", "m_dot_rl", at(st, "temp", "regen", "avg")) + \
            one("hhx", "m_dot_rl", "m_dot_le", at(st, "temp", "hhx"))

    def Pc(self, i):
        return self.v.fields["P"].elem(i) + HALF * self.drop(i)

    def Pe(self, i):
        return self.v.fields["P"].elem(i) - HALF * self.drop(i)

    def cyc(self, f):
        """frequency times the integral over the cycle"""
        return self.freq * trapz(self.v.fields["time"], f)

    # required figures
    def ideal(self):
        return self.cyc(lambda i: self.v.fields["P"].elem(i) * (self.rates(i)[0] + self.rates(i)[1]))

    def indicated(self):
        v = at(self.R, "values")
        return self.cyc(lambda i: v.fields["P_c"].elem(i) * self.rates(i)[0] + v.fields["P_e"].elem(i) * self.rates(i)[1])

    def mech(self, *p):
        return at(self.par["ws"], p[0], "mechanical") if len(p) else None

    def ws_mech(self):
        return at(self.par["ws"], "comp", "mechanical") + at(self.par["ws"], "exp", "mechanical")

    def hx_mech(self):
        return at(self.par["chx"], "mechanical") + at(self.par["hhx"], "mechanical")

    def external(self):
        return at(self.par["hhx"], "thermal") + at(self.par["regen"], "thermal") + at(self.par["ws"], "exp", "thermal")

    def resist(self):
        return self.q("ws", "thermal_resistance")

    def input(self):
        r = at(self.resist(), "exp")
        th = at(self.st, "temp", "hhx")
        return self.cyc(lambda i: self.v.fields["Q_dot_l"].elem(i)) - \
            self.cyc(lambda i: (self.v.fields["T_e"].elem(i) - th) / r) + self.external()

    def rejected(self, ideal, indicated):
        r = at(self.resist(), "comp")
        tc = at(self.st, "temp", "chx")
        return self.cyc(lambda i: self.v.fields["Q_dot_k"].elem(i)) + \
            self.cyc(lambda i: (self.v.fields["T_c"].elem(i) - tc) / r) + \
            (ideal - indicated) + self.ws_mech() + self.external()


def reported(ctx):
    if "reported" not in ctx.cache:
        ctx.cache["reported"] = Reported(ctx)
    return ctx.cache["reported"]


MIRROR = [("pressure.%s" % k, "pres.%s" % k) for k in ("avg", "max", "min", "t_zero")] + \
    [("mass_flow.%s" % k, "mass_flow.%s" % k) for k in ("chx", "regen", "hhx")] + \
    [("heat_flow.%s" % k, "heat_flow.%s" % k) for k in ("chx", "regen", "hhx")] + \
    [("regen_imbalance", "regen_imbalance.0")] + \
    [("temperature.%s" % a, "temp.%s" % b) for a, b in
     (("sink", "sink"), ("chx", "chx"), ("regen_cold", "regen.cold"), ("regen_avg", "regen.avg"),
      ("regen_hot", "regen.hot"), ("hhx", "hhx"), ("source", "source"))]
SERIES = ("time", "P", "T_c", "T_e", "m_dot_ck", "m_dot_kr", "m_dot_rl", "m_dot_le", "Q_dot_k", "Q_dot_r", "Q_dot_l")


def C25(ctx):
    X = reported(ctx)
    ctx.rule("RunResults::from is summarised over an arbitrary engine; every reported slot must be term-equal to the "
             "correspondingly named slot of the engine, and each derived slot to the correspondingly named figure.")
    R = X.R
    for a, b in MIRROR:
        ctx.same("reported %s is the engine's %s" % (a, b), at(R, *a.split(".")), at(X.st, *b.split(".")), X.where)
    for k in SERIES:
        ctx.same("reported series %s is the engine's" % k, at(R, "values", k), X.v.fields[k], X.where)
    ind, idl = X.indicated(), X.ideal()
    sh = ind - X.ws_mech()
    for nm, got, w in (("power.ideal_indicated", at(R, "power", "ideal_indicated"), idl),
                       ("power.indicated", at(R, "power", "indicated"), ind),
                       ("power.shaft", at(R, "power", "shaft"), sh),
                       ("power.net", at(R, "power", "net"), sh - X.hx_mech()),
                       ("heat_flow.input", at(R, "heat_flow", "input"), X.input()),
                       ("heat_flow.rejection", at(R, "heat_flow", "rejection"), X.rejected(idl, ind))):
        ctx.same("reported %s is the figure of that name" % nm, got, w, X.where)
    n = X.n
    for k, f in (("P_c", X.Pc), ("P_e", X.Pe)):
        s = at(R, "values", k)
        ctx.same("reported series %s has the length of the others" % k, s.length(), n, X.where)
        i = probe_index()
        ctx.same("reported series %s is the pressure of that space" % k, s.elem(i), f(i), X.where)


def C28(ctx):
    X = reported(ctx)
    ctx.rule("Value-flow terms of the power figures over an arbitrary engine compared with their defining terms: cyclic "
             "trapezoidal sums with the same pairing of pressure, volume rate and time, minus named losses.")
    R = X.R
    P = lambda k: at(R, "power", k)
    ctx.same("indicated power is frequency times the cyclic work of both spaces", P("indicated"), X.indicated(), X.where)
    ctx.same("ideal indicated power uses the common pressure", P("ideal_indicated"), X.ideal(), X.where)
    ctx.same("shaft power subtracts both working spaces' mechanical losses", P("shaft"), P("indicated") - X.ws_mech(),
             X.where)
    ctx.same("net power subtracts both heat exchangers' mechanical losses", P("net"), P("shaft") - X.hx_mech(), X.where)
    from sa.models import PI
    ctx.same("shaft torque is shaft power over angular speed", at(R, "shaft_torque"), P("shaft") / (2 * PI * X.freq),
             X.where)
    ctx.same("efficiency is net power over heat input", at(R, "efficiency", "mechanical"),
             P("net") / at(R, "heat_flow", "input"), X.where)


def C29(ctx):
    X = reported(ctx)
    ctx.rule("Value-flow terms of heat input and heat rejection over an arbitrary engine compared with the defining sums "
             "of heat paths.")
    R = X.R
    ctx.same("heat input counts every heat path into the engine", at(R, "heat_flow", "input"), X.input(), X.where)
    ctx.same("heat rejection counts every heat path out of the engine", at(R, "heat_flow", "rejection"),
             X.rejected(at(R, "power", "ideal_indicated"), at(R, "power", "indicated")), X.where)
    v = at(R, "values")
    ctx.same("pressure-drop dissipation is the work lost between common and space pressures",
             at(R, "power", "ideal_indicated") - at(R, "power", "indicated"),
             X.cyc(lambda i: (v.fields["P"].elem(i) - v.fields["P_c"].elem(i)) * X.rates(i)[0] +
                   (v.fields["P"].elem(i) - v.fields["P_e"].elem(i)) * X.rates(i)[1]), X.where)


def C30(ctx):
    X = reported(ctx)
    ctx.rule("Element i of the working-space pressures, for an arbitrary i, compared with the common pressure plus and "
             "minus half the sum of the three exchangers' drops at that same instant.")
    R = X.R
    i = probe_index()
    pc, pe = at(R, "values", "P_c"), at(R, "values", "P_e")
    P = X.v.fields["P"]
    ctx.same("compression-space pressure exceeds the common pressure by half the drops", pc.elem(i), X.Pc(i), X.where)
    ctx.same("expansion-space pressure falls short by half the drops", pe.elem(i), X.Pe(i), X.where)
    ctx.same("the split is symmetric", pc.elem(i) + pe.elem(i), 2 * P.elem(i), X.where)
    for k, s in (("P_c", pc), ("P_e", pe)):
        ctx.same("one %s per instant" % k, s.length(), X.n, X.where)


# ------------------------------------------------------------------ C31
def C31(ctx):
    from .equations import solved, cases, in_span, energy_rows, FACES, NAMES, FIELDS, Instants, inputs_arg, \
        engine_temps, direct_outputs, sum_dd
    from .run import core, Run
    ctx.rule("Symbolic energy ledger. (1) The sum of the assembled energy balances must be: heat from the hot exchanger "
             "minus heat to the cold exchanger, to the regenerator and out of both working spaces minus boundary work "
             "equals stored energy. (2) The reported heat input minus rejection minus shaft power must be the cyclic sum "
             "of exactly those heat paths minus the boundary work at the common pressure. (3) The working-space heat "
             "entering the balances must be the one entering the reported figures.")
    S, out = solved(ctx)
    for g, sol, rows in out:
        E = energy_rows(S.inp, {k: ZERO for k in FACES})
        tot = [sum_dd([E[v][k] for v in NAMES]) for k in range(11)]
        ok, n = True, 0
        for gg, m in cases(rows, g):
            n += 1
            ok = ok and in_span(m, tot)
        ctx.count("direction cases", n)
        ctx.ob("the gas balances sum to heats minus boundary work", ok, S.where,
               "the sum of the assembled energy balances contains other terms")
    X = reported(ctx)
    R = X.R
    v = X.v.fields
    res = X.resist()
    tc, th = at(X.st, "temp", "chx"), at(X.st, "temp", "hhx")
    D = at(R, "heat_flow", "input") - at(R, "heat_flow", "rejection") - at(R, "power", "shaft")
    want = X.cyc(lambda i: v["Q_dot_l"].elem(i) - v["Q_dot_k"].elem(i)
                 - v["P"].elem(i) * (X.rates(i)[0] + X.rates(i)[1])
                 - (v["T_c"].elem(i) - tc) / at(res, "comp") - (v["T_e"].elem(i) - th) / at(res, "exp"))
    ctx.same("reported heat minus reported work is the gas's heat minus the gas's work", D, want, X.where)
    C = core(ctx)
    I = Instants(ctx, C)
    todo = []
    for e, L in I.cb:
        for r in I.rhs_of(L)[:1]:
            y = unbox(r["y"]) if isinstance(r["y"], DD) else r["y"]
            todo.append((e, [y.get(k, 0) for k in range(3)], "while integrating"))
    for e in I.pt:
        rr = direct_outputs(inputs_arg(ctx, e))
        if not ctx.ob("a reported instant is at an output of the integration", len(rr) == 1, str(e["site"]), ""):
            continue
        fo, ix = rr[0]
        todo.append((e, [Run(fo).yc(k, ix) for k in range(3)], "for reported points"))
    E = C.ok[0][1]
    st, comps = at(E, "state"), C.args["comps"]
    temps = engine_temps(C, E)
    own = comps.fields["ws"]
    for e, (P, Tc, Te), tag in todo:
        inp = inputs_arg(ctx, e)
        for k, T_, hx in (("comp", Tc, "chx"), ("exp", Te, "hhx")):
            got = at(inp, k, "Q_dot")
            # which of this run's states the working spaces are asked with is not this rule's concern
            rr = asked(got, "thermal_resistance", own, k) \
                or [at(C.comp("ws", "thermal_resistance", comps, st), k)]
            pw = asked(got, "parasitics", own, k, "thermal")
            reqs = [(T_ - temps[hx]) / r for r in rr]
            ok = any(equal(got, q, e["guard"]) for q in reqs)
            sig = None
            if not ok:
                known = any(equal(got - q, w, e["guard"]) for q in reqs for w in pw)
                sig = "ws parasitics %s.thermal" % k if known else "other"
            ctx.ob("heat leaving the gas of the %s is the reported one %s" % (NAMES[k], tag), ok, str(e["site"]),
                   "the balance has %s, the figures count %s" % (short(got, 160), short(reqs[0], 160)), sig)


def asked(term, method, own, *fields):
    """figures of this engine's working spaces, returned by `method`, that occur in `term`"""
    bases = {}
    for a in sorted(atoms_of(term)):
        for x in (ATOMS[a], ATOMS[a].args[0] if ATOMS[a].args else None):
            if isinstance(x, Atom) and x.kind.endswith("::" + method) and same_first(x, own):
                bases[x.id] = x
    out = []
    for b in bases.values():
        for f in fields:
            b = app_atom("proj", (b, f))
        out.append(num_atom(b))
    return out
