"""The whole run, summarised once: Engine::run over symbolic components, fluid, inputs and settings."""
from sa.spec import *
from sa.ctx import *
from sa.interp import Interp, Unsupported, csubst, RESULT
from sa.equal import dd_vars, align, short


def fluid_fn(ctx, name):
    return ctx.tmethod("fluid::Fluid::" + name)


def solve_fn(ctx):
    """the function that solves the state equations at one instant: takes Inputs, returns Result<Solution>"""
    sol = ctx.adt("state_equations::Solution")
    inp = ctx.adt("state_equations::inputs::Inputs")
    out = []
    for did, b in ctx.p.bodies.items():
        d = ctx.p.defs.get(did)
        if not d or not d.get("local") or "sig" not in d or d["kind"] not in ("Fn", "AssocFn"):
            continue
        ps, r = d["sig"]
        rt = ctx.p.ty(r)
        if not (rt[0] == "adt" and ctx.p.path(rt[1]) == RESULT and rt[2][0][:2] == ("adt", sol)):
            continue
        ts = [ctx.p.ty(x) for x in ps]
        ts = [t[1] if t[0] == "ref" else t for t in ts]
        if any(t[0] == "adt" and t[1] == inp for t in ts):
            out.append(did)
    return out


class Core:
    def __init__(self, ctx, bounded=True):
        self.ctx = ctx
        p = ctx.p
        self.run = ctx.find("engine::Engine::<T>::run")
        bnd = {}
        if bounded:
            f = solve_fn(ctx)
            if len(f) == 1:
                bnd[f[0]] = True
        self.solve = list(bnd)

        def go(I):
            ps = p.bodies[self.run]["params"]
            names = ["comps", "fluid", "inputs", "settings"]
            tys = [p.ty(x["ty"]) for x in ps]
            ptr = {"comps": ctx.adt("engine::Components"), "inputs": ctx.adt("types::RunInputs"),
                   "settings": ctx.adt("types::RunSettings")}
            self.args = {}
            vals = []
            for t in tys:
                nm = "fluid"
                for k, a in ptr.items():
                    if t[0] == "adt" and t[1] == a:
                        nm = k
                v = I.symbol(nm, t)
                self.args[nm] = v
                vals.append(v)
            if len(self.args) != 4:
                raise Missing("parameters of Engine::run")
            v = I.call_fn(self.run, vals, {})
            return I.freeze(v)

        self.I, self.v = ctx.analyse(go, bnd)
        self.ok, self.err = [], []
        ax = self.axioms()
        for g, l in leaves(self.v):
            g = band(g, ax)
            if g is FALSE:
                continue
            if not isinstance(l, Enum):
                raise Unsupported("result of Engine::run is not a visible Result")
            (self.ok if l.variant == "Ok" else self.err).append((g, l.fields["0"]))
        self.rec = {}
        for L, i in self.I.loopinfo.items():
            for k, (x0, X, f, c) in i["rec"].items():
                if isinstance(X, DD) and X.var is None and is_num(X):
                    self.rec[X.id] = (L, k, x0, X, f, c)
        self.where = ctx.loc(self.run)

    def axioms(self):
        """a loop left through one of its exits was left on that exit's path"""
        ax = TRUE
        for L, i in self.I.loopinfo.items():
            for st, v, w in i["exits"]:
                for x in dd_vars(st.guard):
                    if CONDS[x].kind.startswith("exit:%d:" % L):
                        ax = band(ax, bor(bnot(mk_node(x, TRUE, FALSE)), st.guard))
        return ax

    # ------------------------------------------------------------ specification pieces
    def c(self, name, *args):
        """call trait method name with args (values)"""
        did = self.ctx.tmethod(name)
        d = self.ctx.p.defs[did]
        vals = []
        for a, t in zip(args, d["sig"][0]):
            tt = self.ctx.p.ty(t)
            if tt[0] == "ref" and not (isinstance(a, DD) and a.var is None and isinstance(a.leaf, Ref)):
                a = self.I.ref(a)
            vals.append(a)
        was = self.I.st
        if was.dead or self.I.st.guard is not TRUE:
            from sa.interp import State
            self.I.st = State(dict(was.store), TRUE, False)
            vals = []
            for a, t in zip(args, d["sig"][0]):
                tt = self.ctx.p.ty(t)
                if tt[0] == "ref":
                    a = self.I.ref(a)
                vals.append(a)
        nev = len(self.I.events)
        r = self.I.freeze(self.ctx.call(self.I, did, vals, self.DYN))
        del self.I.events[nev:]
        return r

    def fluid(self, f, *a):
        return self.c("fluid::Fluid::" + f, self.args["fluid"], *a)

    def hx_state(self, kind, st):
        """what component `kind` is told about the engine state st"""
        ctx = self.ctx
        t = {"chx": at(st, "temp", "chx"), "hhx": at(st, "temp", "hhx"),
             "regen": at(st, "temp", "regen", "avg")}[kind]
        pr = at(st, "pres", "avg")
        fl = st.fields["fluid"]
        hxr = Struct(ctx.adt("types::HeatExchanger"), {
            "temp": t, "pres": pr,
            "dens": self.c("fluid::Fluid::dens", fl, t, pr),
            "cp": self.c("fluid::Fluid::cp", fl, t, pr),
            "m_dot": at(st, "mass_flow", kind), "Q_dot": at(st, "heat_flow", kind)})
        if kind == "chx":
            return Struct(ctx.adt("chx::State"), {"hxr": hxr, "sink_temp": at(st, "temp", "sink")})
        if kind == "hhx":
            return Struct(ctx.adt("hhx::State"), {"hxr": hxr, "source_temp": at(st, "temp", "source")})
        return Struct(ctx.adt("regen::State"), {"hxr": hxr, "temp_chx": at(st, "temp", "chx"),
                                                "temp_hhx": at(st, "temp", "hhx")})

    def ws_state(self, st):
        return Struct(self.ctx.adt("ws::State"), {"pres": st.fields["pres"]})

    DYN = None
    TR = {"chx": "chx::ColdHeatExchanger", "hhx": "hhx::HotHeatExchanger", "regen": "regen::Regenerator",
          "ws": "ws::WorkingSpaces"}

    def comp(self, kind, method, comps, st=None):
        a = [comps.fields[kind]]
        if st is not None:
            a.append(self.ws_state(st) if kind == "ws" else self.hx_state(kind, st))
        return self.c(self.TR[kind] + "::" + method, *a)

    def temps(self, sink, source, ac, ar, ah, imb):
        """temperature stack implied by approach temperatures"""
        chx, hhx = sink + ac, source - ah
        cold = chx + ite(gt(imb, ZERO), ar, ar - imb)
        hot = hhx - ite(gt(imb, ZERO), ar + imb, ar)
        mid_h = HALF * (hhx + hot)
        mid_c = HALF * (chx + cold)
        return {"chx": chx, "hhx": hhx, "cold": cold, "hot": hot,
                "avg": (mid_h - mid_c) / T.ln(mid_h / mid_c)}

    def got_temps(self, st):
        return {"chx": at(st, "temp", "chx"), "hhx": at(st, "temp", "hhx"),
                "cold": at(st, "temp", "regen", "cold"), "avg": at(st, "temp", "regen", "avg"),
                "hot": at(st, "temp", "regen", "hot")}

    def new_temps(self, comps, st):
        return self.temps(at(st, "temp", "sink"), at(st, "temp", "source"),
                          self.comp("chx", "approach", comps, st), self.comp("regen", "approach", comps, st),
                          self.comp("hhx", "approach", comps, st), at(st, "regen_imbalance", "0"))


def converged(old, new, tol):
    return band(lt(T.abs_(new - old), tol.fields["abs"]),
                lt(T.abs_((new - old) / old), tol.fields["rel"]))
