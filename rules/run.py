"""Rules about one run: convergence verdicts, error flow, iteration limits, sampling, wiring."""
from .core import *
from sa.values import vsubst


def core(ctx):
    C = Core(ctx)
    ctx.trusted += [
        "rustc's type checker and THIR; the semantics of std/nalgebra/itertools operations as modelled in sa/models.py",
        "ode_solvers::Dopri5: emits the initial point first, then evenly spaced points x+k*dx <= x_end, and calls System::system for its stages"]
    ctx.count("run outcomes (gated leaves)", len(C.ok) + len(C.err))
    ctx.count("loops summarised", len(C.I.loopinfo))
    ctx.count("calls recorded", sum(1 for e in C.I.events if e["kind"] == "call"))
    ctx.ob("a run can succeed", len(C.ok) >= 1, C.where, "Engine::run never returns Ok")
    return C


def each_ok(C):
    for k, (g, E) in enumerate(C.ok):
        yield ("" if len(C.ok) == 1 else " #%d" % k), g, E


# ------------------------------------------------------------------ C01
def C01(ctx):
    C = core(ctx)
    ctx.rule("The guard under which Engine::run returns Ok must imply, for each of the five engine temperatures, "
             "that old (returned) and new (the temperature stack recomputed from every component's approach for the "
             "returned state) agree strictly within the outer absolute and relative tolerance.")
    tol = at(C.args["settings"], "loop_tol", "outer")
    for s, g, E in each_ok(C):
        st, comps = at(E, "state"), at(E, "components")
        new, old = C.new_temps(comps, st), C.got_temps(st)
        for k in ("chx", "hhx", "cold", "avg", "hot"):
            c = converged(old[k], new[k], tol)
            ctx.entails("Ok implies %s temperature reproduced within outer tolerance%s" % (k, s), g, c, C.where,
                        "the guard of the successful return does not imply |new-old| < abs and |(new-old)/old| < rel "
                        "with old=%s new=%s" % (short(old[k], 120), short(new[k], 200)))
        for k in ("ws", "chx", "regen", "hhx"):
            ctx.same("the components judged are the ones returned: %s%s" % (k, s), comps.fields[k],
                     C.args["comps"].fields[k], C.where)


# ------------------------------------------------------------------ averages
def spec_pres(E):
    v = at(E, "values")
    t, P = v.fields["time"], v.fields["P"]
    n = P.length()
    return {"avg": trapz(t, P.elem) / last(t), "max": max_over(n, P.elem), "min": min_over(n, P.elem),
            "t_zero": P.elem(ZERO)}


def spec_mass(E):
    v = at(E, "values")
    t = v.fields["time"]
    pair = {"chx": ("m_dot_ck", "m_dot_kr"), "regen": ("m_dot_kr", "m_dot_rl"), "hhx": ("m_dot_rl", "m_dot_le")}

    def avg(a, b):
        a, b = v.fields[a], v.fields[b]
        return trapz(t, lambda i: T.abs_(HALF * (a.elem(i) + b.elem(i)))) / last(t)

    return {k: avg(*p) for k, p in pair.items()}


def spec_heat(E, temp_chx, temp_hhx, rc, re):
    v = at(E, "values")
    t = v.fields["time"]
    tf = last(t)

    def avg(f):
        return trapz(t, f) / tf

    qc = avg(lambda i: (v.fields["T_c"].elem(i) - temp_chx) / rc)
    qe = avg(lambda i: (temp_hhx - v.fields["T_e"].elem(i)) / re)
    qc = ite(T.is_infinite(rc), ZERO, qc)
    qe = ite(T.is_infinite(re), ZERO, qe)
    return {"chx": avg(v.fields["Q_dot_k"].elem) + qc, "regen": avg(v.fields["Q_dot_r"].elem),
            "hhx": avg(v.fields["Q_dot_l"].elem) + qe}


def resist_candidates(C, E):
    """the working spaces' thermal resistances may be asked for with any state of this run"""
    out = []
    seen = set()
    st = at(E, "state")
    for f in ("chx", "hhx"):
        for a in atoms_of(at(st, "heat_flow", f)):
            A = ATOMS[a]
            if A.kind == "proj" and A.args[1] in ("comp", "exp"):
                b = A.args[0]
                if isinstance(b, Atom) and b.kind.endswith("thermal_resistance") and b.id not in seen:
                    seen.add(b.id)
                    out.append(b)
    return out


def averages(ctx, C, s, g, E, tag):
    st = at(E, "state")
    for k, w in spec_pres(E).items():
        ctx.same("pressure %s %s%s" % (k, tag, s), at(st, "pres", k), w, C.where, g)
    for k, w in spec_mass(E).items():
        ctx.same("mass flow %s %s%s" % (k, tag, s), at(st, "mass_flow", k), w, C.where, g)
    # thermal resistance as the working spaces report it (for whichever of this run's states it is asked)
    cand = resist_candidates(C, E)
    own = at(E, "components").fields["ws"]
    cand = [b for b in cand if same_first(b, own)]
    opts = []
    for b in cand:
        opts.append(tuple(num_atom(app_atom("proj", (b, f))) for f in ("comp", "exp")))
    if not opts:
        r = C.comp("ws", "thermal_resistance", at(E, "components"), st)
        opts.append((at(r, "comp"), at(r, "exp")))
    best = None
    for rc, re in opts:
        w = spec_heat(E, at(st, "temp", "chx"), at(st, "temp", "hhx"), rc, re)
        d = {k: compare(at(st, "heat_flow", k), w[k], "", g) for k in w}
        if best is None or sum(len(x.items) for x in d.values()) < sum(len(x.items) for x in best.values()):
            best = d
    for k, d in best.items():
        ctx.ob("heat flow %s %s%s" % (k, tag, s), not d.items, C.where,
               "; ".join("found %s, required %s" % (a, b) for _, a, b in d.items[:2]))


def same_first(b, own):
    return bool(b.args) and (b.args[0] is own or (isinstance(b.args[0], DD) and equal(b.args[0], own)))


def C02(ctx):
    C = core(ctx)
    ctx.rule("On the Ok branch of Engine::run every reported pressure, mass-flow and heat-flow term must be "
             "value-equal to the required functional of the *returned* series terms; a value carried from an earlier "
             "iteration contains loop-carried or other-run terms and cannot be equal.")
    for s, g, E in each_ok(C):
        averages(ctx, C, s, g, E, "is computed from the returned series")
        v = at(E, "values")
        lens = {k: v.fields[k] for k in v.fields}
        ctx.count("series", len(lens))
        # and the public result carries this state and these series
    res = results_of(ctx, C)
    if res is not None:
        for s, g, E, R in res:
            st = at(E, "state")
            for grp, sub in (("pressure", "pres"), ("mass_flow", "mass_flow"), ("heat_flow", "heat_flow")):
                names = ("avg", "max", "min", "t_zero") if grp == "pressure" else ("chx", "regen", "hhx")
                for k in names:
                    ctx.same("reported %s.%s is the state's%s" % (grp, k, s), at(R, grp, k), at(st, sub, k),
                             ctx.loc(from_engine(ctx)), g)
            for k in ("time", "P", "T_c", "T_e", "m_dot_ck", "m_dot_kr", "m_dot_rl", "m_dot_le", "Q_dot_k",
                      "Q_dot_r", "Q_dot_l"):
                ctx.same("reported values.%s is the engine's%s" % (k, s), at(R, "values", k), at(E, "values", k),
                         ctx.loc(from_engine(ctx)), g)


def from_engine(ctx):
    """<RunResults as From<Engine<T>>>::from"""
    rr, en = ctx.adt("api::RunResults"), ctx.adt("engine::Engine")
    for tr, ims in ctx.p.impl_by_trait.items():
        if ctx.p.path(tr) != "std::convert::From":
            continue
        for im in ims:
            t = ctx.p.ty(im["self"])
            a = ctx.p.ty(im["targs"][1]) if len(im.get("targs", [])) > 1 else None
            if t[0] == "adt" and t[1] == rr and a and a[0] == "adt" and a[1] == en:
                for it in im["items"]:
                    if it["name"] == "from":
                        return it["id"]
    raise Missing("From<Engine<T>> for RunResults")


def results_of(ctx, C):
    """RunResults::from applied to each engine of the summary"""
    f = from_engine(ctx)
    out = []
    for s, g, E in each_ok(C):
        from sa.interp import State
        C.I.st = State(dict(C.I.st.store), TRUE, False)
        b = dict(C.I.boundary)
        R = C.I.call_fn(f, [E], {})
        R = C.I.freeze(R)
        out.append((s, g, E, R))
    ctx.done(C.I)
    return out


# ------------------------------------------------------------------ ODE runs
class Run:
    """one call of the ODE integrator, as found in terms"""

    def __init__(self, fo):
        self.fo = fo
        f = fo.fields
        self.x, self.x_end, self.dx, self.y = f["x"], f["x_end"], f["dx"], f["y"]
        self.rtol, self.atol = f["rtol"], f["atol"]

    def y0(self, k):
        return self.y.get(k, 0)

    def n(self):
        return num_atom(app_atom("ode.len", (self.x, self.x_end, self.dx), True))

    def yc(self, k, i):
        from sa.models import ode_y
        return ode_y((self.fo, k, 0, i))

    def xi(self, i):
        from sa.models import ode_x
        return ode_x((self.x, self.x_end, self.dx, i))


def runs_in(*vs):
    out = {}
    for v in vs:
        ids = atoms_of(v) if not isinstance(v, frozenset) else v
        for a in ids:
            A = ATOMS[a]
            if A.kind in ("ode.yc", "ode.integrate", "ode.run", "ode.y"):
                fo = A.args[0]
                out.setdefault(key(fo), Run(fo))
    return list(out.values())


def guard_runs(I, g):
    out = {}
    for v in dd_vars(g):
        for a in CONDS[v].args:
            for r in runs_in(a):
                out.setdefault(key(r.fo), r)
    return list(out.values())


def ode_events(C):
    return [e for e in C.I.events if e["kind"] == "call" and e.get("path") == "ode.integrate"]


def series_run(C, E):
    """the integrator run the returned series are read from"""
    i = probe_index()
    v = at(E, "values")
    rs = {}
    for f in ("P", "T_c", "T_e"):
        for r in direct_runs(v.fields[f].elem(i)):
            rs.setdefault(key(r.fo), r)
    return list(rs.values()), i


def direct_runs(d):
    """runs whose output component d itself is (top-level atoms only)"""
    out = []
    for _, l in leaves(d):
        for a in T.rat_atoms(l):
            A = ATOMS[a]
            if A.kind == "ode.yc":
                out.append(Run(A.args[0]))
    return out


def one_period(r):
    """(m, margin, period) when the run's grid is dx = period/m and x_end = period + margin*dx; period = m*dx is
    chosen so that the margin lies in [0, 1)"""
    span = (r.x_end - r.x) / r.dx
    return span


def C03(ctx):
    C = core(ctx)
    ctx.rule("On the Ok branch of Engine::run the returned series are the output of one integrator run B; the guard "
             "must imply that some run A (same initial conditions, tolerances, cycle and period as B) succeeded and "
             "returned both working-space temperatures to their start strictly within the inner tolerances; initial "
             "pressure is the configured one and the loop-carried temperature guess steps to the end of run A.")
    tol = at(C.args["settings"], "loop_tol", "inner")
    p0 = at(C.args["inputs"], "pres_zero")
    for s, g, E in each_ok(C):
        rs, i = series_run(C, E)
        if not ctx.ob("the returned series come from one integration%s" % s, len(rs) == 1, C.where,
                      "%d integrator runs feed P, T_c, T_e" % len(rs)):
            continue
        B = rs[0]
        v = at(E, "values")
        for k, f in enumerate(("P", "T_c", "T_e")):
            ctx.same("series %s is component %d of that integration%s" % (f, k, s), v.fields[f].elem(i), B.yc(k, i),
                     C.where, g)
        ctx.same("the series start at the configured time-zero pressure%s" % s, B.y0(0), p0, C.where, g)
        cand = []
        for A in guard_runs(C.I, g):
            why = []
            n1 = A.n() - 1
            if not (equal(A.y0(0), B.y0(0), g) and equal(A.y0(1), B.y0(1), g) and equal(A.y0(2), B.y0(2), g)):
                why.append("initial conditions differ from those of the returned series")
            if not (equal(A.rtol, B.rtol, g) and equal(A.atol, B.atol, g)):
                why.append("integration tolerances differ")
            if not equal(system_of(ctx, A), system_of(ctx, B), g):
                why.append("integrates another system")
            ok, det = period_of(C, A)
            okb, detb = period_of(C, B)
            if not ok:
                why.append("does not span one period: " + det)
            elif okb and not equal(det, detb, g):
                why.append("spans another period than the returned series")
            c = band(converged(A.y0(1), A.yc(1, n1), tol), converged(A.y0(2), A.yc(2, n1), tol))
            if not entails(g, c):
                why.append("Ok does not imply that T_c and T_e return to their start within the inner tolerance")
            res = C.I.is_variant(C.I.app("ode.integrate", [A.fo], ("adt", C.I.RES, (("tuple", ()), ("other", "err")))), "Ok")
            cand.append((why, A))
        cand.sort(key=lambda x: len(x[0]))
        good = [c for c in cand if not c[0]]
        ctx.count("integrations judged by the guard", len(cand))
        ctx.ob("success implies a verified cyclic steady state%s" % s, bool(good), C.where,
               "; ".join(cand[0][0]) if cand else "no integration is consulted before success")
        A = good[0][1] if good else None
        # every integration of this engine starts at the configured pressure and uses the same tolerances
        for e in ode_events(C):
            R = Run(e["args"][0])
            ctx.same("an integration starts at the configured time-zero pressure%s" % s, R.y0(0), p0, e["site"],
                     e["guard"])
        # successive substitution
        if A is not None:
            n1 = A.n() - 1
            for k, f in ((1, "T_c"), (2, "T_e")):
                r = C.rec.get(A.y0(k).id)
                ok = r is not None and r[4] is not None
                if not ctx.ob("the %s guess is carried by the iteration%s" % (f, s), ok, C.where,
                              "initial %s of the verified cycle is %s" % (f, short(A.y0(k), 200))):
                    continue
                info = C.I.loopinfo[r[0]]
                ctx.same("the next %s guess is the end of the previous cycle%s" % (f, s), r[4], A.yc(k, n1),
                         str(info["site"]), info["end"])


def system_of(ctx, r):
    """the integrated system without its mutable cells (flow-direction memory, error slot)"""
    def strip(v, d=0):
        if d > 8:
            return v
        if isinstance(v, Struct):
            p = ctx.p.path(v.adt) if v.adt in ctx.p.defs else str(v.adt)
            if p.rsplit("::", 1)[-1] in ("RefCell", "Cell", "UnsafeCell", "Mutex", "OnceCell"):
                return Tup(())
            return Struct(v.adt, {k: strip(x, d + 1) for k, x in v.fields.items()})
        if isinstance(v, Tup):
            return Tup(tuple(strip(x, d + 1) for x in v.items))
        if isinstance(v, DD) and v.var is None and isinstance(unbox(v), (Struct, Tup)):
            return strip(unbox(v), d + 1)
        return v
    return strip(r.fo.fields["f"])


def period_of(C, r):
    """(True, period) when the output grid of r spans exactly one engine period"""
    freq = [ATOMS[a] for a in atoms_of(r.dx) if ATOMS[a].kind.endswith("::frequency")]
    if r.x is not ZERO:
        return False, "starts at %s" % short(r.x, 80)
    if not freq:
        return False, "its step does not derive from the working-space frequency"
    span = r.x_end / r.dx
    for F in freq:
        period = ONE / num_atom(F)
        m = period / r.dx  # number of steps in one period
        extra = span - m
        if extra.var is None and isinstance(extra.leaf, Rat) and extra.leaf.is_const():
            c = extra.leaf.const()
            if not (0 < c < 1):
                return False, "the last output falls %s steps beyond the end of the period" % c
            if integer_valued(m):
                return True, period
            return False, "the period is %s steps, not a whole number" % short(m, 80)
        m2 = extra
    return False, "end %s is not one period (1/frequency) plus a part of a step" % short(r.x_end, 160)


def integer_valued(m):
    if m.var is not None:
        return all(T.rat_is_integer(l) for _, l in leaves(m))
    return T.rat_is_integer(m.leaf)


# ------------------------------------------------------------------ C13
def C13(ctx):
    C = core(ctx)
    ctx.rule("The run feeding the returned series starts at 0, has step (1/frequency)/(resolution-1) and an end at one "
             "period plus a positive fraction of a step (so the last of the evenly spaced outputs is the one at one "
             "period); the guard of Ok implies resolution >= 2; entry i of the time series is output abscissa i.")
    N_ = at(C.args["settings"], "resolution")
    for s, g, E in each_ok(C):
        rs, i = series_run(C, E)
        if not ctx.ob("the returned series come from one integration%s" % s, len(rs) == 1, C.where, ""):
            continue
        B = rs[0]
        t = at(E, "values", "time")
        ctx.same("time[i] is the i-th output of the integration%s" % s, t.elem(i), B.xi(i), C.where, g)
        ctx.same("time[0] is zero%s" % s, t.elem(ZERO), ZERO, C.where, g)
        ctx.same("number of points is the number of outputs%s" % s, t.length(), B.n(), C.where, g)
        ok, per = period_of(C, B)
        ctx.ob("the outputs span exactly one period%s" % s, ok, C.where, "" if ok else per)
        if ok:
            ctx.same("the step divides the period into resolution-1 intervals%s" % s, per / B.dx, N_ - 1, C.where, g)
            F = [ATOMS[a] for a in atoms_of(per) if ATOMS[a].kind.endswith("::frequency")][0]
            ctx.ob("the frequency is that of the run's own working spaces%s" % s,
                   same_first(F, at(E, "components", "ws")), C.where, "frequency of " + short(F.args, 100))
            iv = per / B.dx
        ctx.entails("a resolution below two points is refused%s" % s, g, bnot(lt(N_, num(2))), C.where,
                    "Ok is reachable with fewer than two points")


# ------------------------------------------------------------------ C26
def C26(ctx):
    C = core(ctx)
    ctx.rule("All series terms of a successful engine have the length term of `time`, and element i of each depends on "
             "integrator output i only (same index term), in the order the integrator emitted them.")
    for s, g, E in each_ok(C):
        v = at(E, "values")
        t = v.fields["time"]
        i = probe_index()
        rs, _ = series_run(C, E)
        if len(rs) == 1:
            ctx.same("instant i is the i-th output of the integration, which emits them in increasing time%s" % s,
                     t.elem(i), rs[0].xi(i), C.where, g)
        for k in sorted(v.fields):
            x = v.fields[k]
            ctx.same("length of %s equals length of time%s" % (k, s), x.length(), t.length(), C.where, g)
            idx = moving(index_terms(x.elem(i)), i)
            ctx.ob("element i of %s belongs to instant i%s" % (k, s),
                   bool(idx) and all(equal(q, i) for q in idx), C.where,
                   "element i is built from integrator output(s) %s" % ", ".join(short(q, 40) for q in idx))
        for _, _, _, R in [r for r in results_of(ctx, C) if r[0] == s]:
            tv = at(R, "values", "time")
            for k in sorted(at(R, "values").fields):
                x = at(R, "values", k)
                ctx.same("length of reported %s%s" % (k, s), x.length(), t.length(), ctx.loc(from_engine(ctx)), g)
                idx = moving(index_terms(x.elem(i)), i)
                ctx.ob("element i of reported %s belongs to instant i%s" % (k, s),
                       bool(idx) and all(equal(q, i) for q in idx), ctx.loc(from_engine(ctx)),
                       "element i is built from output(s) %s" % ", ".join(short(q, 40) for q in idx))


def moving(idx, i):
    """the index terms that vary with i (cycle averages refer to fixed elements, such as the last one)"""
    a = atoms_of(i)
    return [q for q in idx if atoms_of(q) & a]


def index_terms(d):
    """index terms of every integrator output mentioned in d, outside loop-carried hints and sums"""
    out = {}
    seen = set()

    def go(x, depth):
        if isinstance(x, DD):
            for n in iter_nodes(x):
                if n.var is not None:
                    for a in CONDS[n.var].args:
                        go(a, depth)
                elif isinstance(n.leaf, Rat):
                    for a in T.rat_atoms(n.leaf):
                        atom(ATOMS[a], depth)
                elif isinstance(n.leaf, Enum):
                    for y in n.leaf.fields.values():
                        go(y, depth)
                elif isinstance(n.leaf, Opq):
                    atom(n.leaf.atom, depth)
        elif isinstance(x, Struct):
            for y in x.fields.values():
                go(y, depth)
        elif isinstance(x, Tup):
            for y in x.items:
                go(y, depth)
        elif isinstance(x, Atom):
            atom(x, depth)

    def atom(A, depth):
        if A.id in seen:
            return
        seen.add(A.id)
        if A.kind == "ode.yc":
            out[A.args[3].id] = A.args[3]
            return
        if A.kind == "ode.xi":
            out[A.args[3].id] = A.args[3]
            return
        if A.kind in ("loopat", "sum", "maxover", "minover", "loopvar", "ode.run"):
            return
        for y in A.args:
            go(y, depth + 1)

    go(d, 0)
    return list(out.values())


def iter_nodes(d):
    st, seen = [d], set()
    while st:
        n = st.pop()
        if n.id in seen:
            continue
        seen.add(n.id)
        yield n
        if n.var is not None:
            st += [n.hi, n.lo]


# ------------------------------------------------------------------ C04
def err_name(v):
    return sorted({l.variant for _, l in leaves(v) if isinstance(l, Enum)}) if isinstance(v, DD) else []


def C04(ctx):
    C = core(ctx)
    I = C.I
    ctx.rule("Effect/typestate analysis of every fallible call under Engine::run (integrator, state-equation solution): "
             "no loop iteration may continue and no Ok return may be reached on a path where the call failed; a failure "
             "inside the integrator's callback must set a sticky error cell that excludes success; failing exits map "
             "to InnerLoop, exhaustion of the outer loop to OuterLoop; run_engine forwards the verdict unchanged.")
    odeloops = getattr(I, "odeloops", {})
    evs = [e for e in I.events if e["kind"] == "call" and "result" in e]
    fails = []
    n_cb = 0
    res_ok = lambda e: I.is_variant(e["result"], "Ok")
    fallible = []
    for e in evs:
        r = e["result"]
        if isinstance(r, DD) and {l.variant for _, l in leaves(r) if isinstance(l, Enum)} == {"Ok", "Err"}:
            fallible.append(e)
    ctx.count("fallible calls", len(fallible))
    ctx.ob("the numerical layer is consulted", any(e["path"] == "ode.integrate" for e in fallible), C.where,
           "no integration is started")
    final = []  # conditions at the level of Engine::run that mean `something failed`
    for e in fallible:
        nm = e["path"].split("::")[-1]
        phi = band(e["guard"], bnot(res_ok(e)))
        if phi is FALSE:
            continue
        cb = [L for L in e["loops"] if L in odeloops]
        fails.append((e, phi, cb))
        if cb:
            n_cb += 1
            L = cb[0]
            ctx.ob("a failed %s inside the integration is remembered" % nm, sticky(C, L, phi), str(e["site"]),
                   "no cell that starts clear is set on every failing call, stays set, and excludes success afterwards")
            continue
        final += escalate(ctx, C, "a failed " + nm, phi, list(e["loops"]), str(e["site"]))
    # failing exits of every loop outside the callback
    for L, info in I.loopinfo.items():
        if L in odeloops or any(q in odeloops for q in info["parent"]):
            continue
        for st, v, w in info["exits"]:
            if not isinstance(v, DD) or st.dead:
                continue
            bad = FALSE
            for gq, l in leaves(v):
                if isinstance(l, Enum) and l.variant == "Err":
                    bad = bor(bad, band(gq, st.guard))
            if bad is not FALSE:
                final += escalate(ctx, C, "an error leaving a loop", bad, list(info["parent"]), str(info["site"]))
    # labels of the failures
    mo, mi = at(C.args["settings"], "max_iters", "outer"), at(C.args["settings"], "max_iters", "inner")
    outer = [L for L, i in I.loopinfo.items() if i["n"] is not None and equal(i["n"], mo) and L not in odeloops]
    inner = [L for L, i in I.loopinfo.items() if i["n"] is not None and equal(i["n"], mi) and L not in odeloops]
    ctx.ob("outer iteration found", len(outer) >= 1, C.where, "no loop with the outer iteration limit")
    ctx.ob("inner iteration found", len(inner) >= 1, C.where, "no loop with the inner iteration limit")

    def exhausted(Ls):
        r = TRUE
        for L in Ls:
            for st, v, w in I.loopinfo[L]["exits"]:
                for x in dd_vars(st.guard):
                    if CONDS[x].kind.startswith("exit:%d:" % L):
                        r = band(r, bnot(mk_node(x, TRUE, FALSE)))
        return r

    seen = set()
    top = [L for L in outer if not I.loopinfo[L]["parent"]]
    for g, er in C.err:
        for gq, l in leaves(er):
            gg = band(g, gq)
            if gg is FALSE:
                continue
            nm = l.variant if isinstance(l, Enum) else "?"
            seen.add(nm)
            if nm == "OuterLoop":
                ctx.ob("the outer-loop error means the outer iterations are exhausted",
                       bool(top) and entails(gg, exhausted(top)), C.where,
                       "OuterLoop is returned while the outer iteration was left early")
                for nm2, psi in final:
                    ctx.ob("%s is never reported as the outer-loop error" % nm2, band(gg, psi) is FALSE, C.where,
                           "OuterLoop is returned although an earlier step failed")
            elif nm == "InnerLoop":
                fc = FALSE
                for nm2, psi in final:
                    fc = bor(fc, psi)
                if inner:
                    fc = bor(fc, exhausted(inner))
                fc = bor(fc, error_cells(C))
                fc = bor(fc, lt(at(C.args["settings"], "resolution"), num(2)))
                ctx.ob("the inner-loop error means the inner layer failed", band(gg, bnot(fc)) is FALSE, C.where,
                       "InnerLoop is returned although integration and inner iteration succeeded")
            else:
                ctx.ob("every error is one of the two documented kinds", False, C.where, "error " + short(l, 100))
    ctx.ob("both kinds of failure are reported", {"InnerLoop", "OuterLoop"} <= seen, C.where,
           "error kinds reachable: %s" % ", ".join(sorted(seen)))
    from .equations import failing_decompositions
    failing_decompositions(ctx)
    forwarded(ctx, C)


def escalate(ctx, C, what, phi, loops, where):
    """follow a failure outward: in every enclosing loop the iteration must not continue, and the way the loop is left
    (its exit condition) is the failure condition of the next level; success must exclude it at the end"""
    I = C.I
    level = [phi]
    for L in reversed(loops):
        info = I.loopinfo[L]
        up = []
        for psi in level:
            ctx.ob("no iteration continues past %s" % what, band(info["end"], psi) is FALSE, where,
                   "the loop at %s goes on although it happened" % info["site"])
            for st, v, w in info["exits"]:
                x = band(st.guard, psi)
                if x is not FALSE:
                    up.append(x)
        level = up
    for psi in level:
        for s, g, E in each_ok(C):
            ctx.ob("success excludes %s%s" % (what, s), band(g, psi) is FALSE, where,
                   "Ok can be returned although it happened")
    return [(what, psi) for psi in level]


def error_cells(C):
    """disjunction of `some remembered failure is set` tests occurring in the engine's guards"""
    I = C.I
    r = FALSE
    vs = set()
    for g, _ in C.ok + C.err:
        vs |= dd_vars(g)
    for v in vs:
        c = CONDS[v]
        if c.kind == "is:Some" and isinstance(c.args[0], Atom) and c.args[0].kind == "hv":
            b = c.args[0].args[0]
            if isinstance(b, Atom) and b.kind == "loopout" and b.args[0] in getattr(I, "odeloops", {}):
                r = bor(r, mk_node(v, TRUE, FALSE))
        if c.kind == "bool":
            for a in c.args:
                if isinstance(a, Atom) and a.kind == "hv":
                    b = a.args[0]
                    if isinstance(b, Atom) and b.kind == "loopout" and b.args[0] in getattr(I, "odeloops", {}):
                        r = bor(r, mk_node(v, TRUE, FALSE))
    return r


def failed_pred(I, v):
    """`a failure is recorded in v` for the two natural encodings (Option / Result / flag)"""
    if is_bool(v):
        return [v, bnot(v)]
    out = []
    ls = {l.variant for _, l in leaves(v) if isinstance(l, Enum)}
    if ls and ls <= {"Some", "None"}:
        out += [I.is_variant(v, "Some"), I.is_variant(v, "None")]
    if ls and ls <= {"Ok", "Err"}:
        out += [I.is_variant(v, "Err")]
    return out


def sticky(C, L, phi):
    I = C.I
    info = I.loopinfo[L]
    for k, (x0, X, f, c) in info["rec"].items():
        if f is None or not isinstance(f, DD) or is_num(f) or not isinstance(X, DD):
            continue
        Px, Pf = failed_pred(I, X), failed_pred(I, f)
        args = (L,) + k + info["tail"]
        base = mk_atom("loopout", args, False, tuple(key(x) for x in args))
        out = I.havoc_like(X, base)
        Po = failed_pred(I, out)
        P0 = failed_pred(I, x0) if isinstance(x0, DD) else [FALSE] * len(Px)
        if len(P0) != len(Px):
            P0 = [FALSE] * len(Px)
        for a, b, o, z in zip(Px, Pf, Po, P0):
            if band(info["end"], band(phi, bnot(b))) is not FALSE:
                continue  # a failing call that does not set it
            if band(info["end"], band(a, bnot(b))) is not FALSE:
                continue  # can be cleared again
            if z is TRUE:
                continue
            ok = True
            for g, E in C.ok:
                # success must exclude it, when the run consulted is this loop's
                if L in guard_loops(g) and band(g, o) is not FALSE:
                    ok = False
            for Lp in info["parent"]:
                e = I.loopinfo[Lp]["end"]
                if L in guard_loops(e) and band(e, o) is not FALSE:
                    ok = False
                # the iteration goes on after this integration without consulting the cell
                if L not in guard_loops(e) and direct_parent(info, Lp) and reaches(C, e, L):
                    ok = False
            if not any(L in guard_loops(g) for g, _ in C.ok) and not any(
                    L in guard_loops(I.loopinfo[q]["end"]) for q in info["parent"]):
                ok = ok and not used_in_ok(C, L)
            if ok:
                return True
    return False


def direct_parent(info, Lp):
    return bool(info["parent"]) and info["parent"][-1] == Lp


def reaches(C, g, L):
    """does guard g depend on the success of the integration whose callback loop is L"""
    fo = C.I.odeloops[L]
    return any(key(r.fo) == key(fo) for r in guard_runs(C.I, g))


def used_in_ok(C, L):
    fo = C.I.odeloops[L]
    for g, E in C.ok:
        if any(key(r.fo) == key(fo) for r in guard_runs(C.I, g)):
            return True
        if any(key(r.fo) == key(fo) for r in series_run(C, E)[0]):
            return True
    return False


_gl = {}


def guard_loops(g):
    r = _gl.get(g.id)
    if r is None:
        r = set()
        for v in dd_vars(g):
            for a in CONDS[v].args:
                for x in atoms_of(a):
                    if ATOMS[x].kind == "loopout":
                        r.add(ATOMS[x].args[0])
        _gl[g.id] = r
    return r


def forwarded(ctx, C):
    """run_engine returns Engine::run's error unchanged and its engine's results"""
    did = ctx.find("api::run_engine")
    b = {C.run: True}
    fe = from_engine(ctx)
    b[fe] = True

    def go(I):
        ps = ctx.p.bodies[did]["params"]
        v = I.call_fn(did, [I.symbol("config", ctx.p.ty(ps[0]["ty"]))], {})
        return I.freeze(v)

    I, v = ctx.analyse(go, b)
    calls = [e for e in I.events if e["kind"] == "call" and e["callee"] == C.run]
    ctx.ob("run_engine runs the engine", len(calls) >= 1, ctx.loc(did), "no call of Engine::run")
    for e in calls:
        fl = short(e["args"], 60)
        isok, iserr = I.is_variant(e["result"], "Ok"), I.is_variant(e["result"], "Err")
        for g, l in leaves(v):
            g2 = band(g, e["guard"])
            if g2 is FALSE:
                continue
            if not isinstance(l, Enum):
                ctx.ob("run_engine returns a Result", False, ctx.loc(did), short(l))
                continue
            if l.variant == "Err":
                ctx.ob("run_engine fails only when the run failed", band(g2, isok) is FALSE, ctx.loc(did),
                       "an error is returned for a successful run")
                ctx.same("run_engine returns the run's error unchanged", l.fields["0"],
                         I.variant_field(e["result"], "Err", "0"), ctx.loc(did), g2)
            else:
                ctx.ob("run_engine succeeds only when the run succeeded", band(g2, iserr) is FALSE, ctx.loc(did),
                       "a result is returned although the run failed")
                rs = [q for q in I.events if q["kind"] == "call" and q["callee"] == fe]
                ctx.ob("the results are derived from the engine that was run",
                       any(equal(q["args"][0], I.variant_field(e["result"], "Ok", "0")) for q in rs), ctx.loc(did),
                       "results do not derive from the converged engine")


# ------------------------------------------------------------------ C07
def C07(ctx):
    C = core(ctx)
    I = C.I
    ctx.rule("Loop nest analysis: every integration started by Engine::run lies in exactly one loop counted by "
             "max_iters.inner inside one counted by max_iters.outer (exactly these trip-count terms); every loop "
             "around an integration or a state-equation solution has a finite trip count.")
    mo, mi = at(C.args["settings"], "max_iters", "outer"), at(C.args["settings"], "max_iters", "inner")
    odeloops = getattr(I, "odeloops", {})
    evs = ode_events(C)
    ctx.ob("integrations are started", len(evs) >= 1, C.where, "")
    kinds = set()
    for e in evs:
        ns = []
        for L in e["loops"]:
            info = I.loopinfo.get(L)
            ns.append(info["n"] if info else None)
        ctx.ob("every loop around an integration is counted", all(n is not None for n in ns), str(e["site"]),
               "a loop around the integration has no bounded trip count")
        if any(n is None for n in ns):
            continue
        chain = []
        for n in ns:
            chain.append("outer" if equal(n, mo) else "inner" if equal(n, mi) else short(n, 60))
        kinds.add(tuple(chain))
        # after a counted loop was left early: in the place of the attempt that ended it
        left = {}
        for v in dd_vars(e["guard"]):
            k = CONDS[v].kind.split(":")
            if k[0] == "exit":
                left.setdefault(int(k[1]), []).append(mk_node(v, TRUE, FALSE))
        for L, cs in left.items():
            n = I.loopinfo[L]["n"] if L in I.loopinfo else None
            if n is not None and L not in e["loops"] and entails(e["guard"], bany(cs)):
                if equal(n, mo):
                    chain.insert(0, "outer")
                elif equal(n, mi):
                    chain.append("inner")
        ctx.ob("attempts are bounded by the outer limit, then the inner limit", chain == ["outer", "inner"],
               str(e["site"]), "loop nest around the integration: %s" % " > ".join(chain))
    # the bounded retry inside the solution of the state equations
    fs = solve_fn(ctx)
    top = [f for f in fs if not any(f2 != f and calls(ctx, f2, f) for f2 in fs)]
    nloops = 0
    for f in top:
        md = ctx.find("state_equations::solver::MatrixDecomposition::solve")

        def go(J):
            ps = ctx.p.bodies[f]["params"]
            v = J.call_fn(f, [J.symbol("a%d" % k, ctx.p.ty(x["ty"])) for k, x in enumerate(ps)], {})
            return J.freeze(v)

        J, v = ctx.analyse(go)
        evs2 = [e for e in J.events if e["kind"] == "call" and e["callee"] == md]
        dec = list(J.opaque_calls)
        for L, info in J.loopinfo.items():
            nloops += 1
            n = info["n"] if info["n"] is not None else info.get("bound")
            ok = n is not None and n.var is None and n.leaf.is_const()
            ctx.ob("flow directions are retried a fixed finite number of times", ok, ctx.loc(f),
                   "a loop in the solution of the state equations has trip count %s" % short(n, 80))
    ctx.count("loops in the instant solver", nloops)
    # zero means no attempt: with both limits counted loops, zero iterations run the loop body zero times,
    # and nothing but the loop body may produce a success
    for s, g, E in each_ok(C):
        outs = [L for L in I.loopinfo if I.loopinfo[L]["n"] is not None and equal(I.loopinfo[L]["n"], mo)]
        names = {"exit:%d:" % L for L in outs}
        has = [v for v in dd_vars(g) if any(CONDS[v].kind.startswith(q) for q in names)]
        ok = bool(has)
        r = FALSE
        for v in has:
            r = bor(r, mk_node(v, TRUE, FALSE))
        ctx.ob("success needs an iteration of the outer loop%s" % s, ok and entails(g, r), C.where,
               "Ok is reachable without entering the outer iteration")


def calls(ctx, f, g):
    return f in ctx.p.bodies and g in callees(ctx, f)


def callees(ctx, f):
    out = set()

    def walk(x):
        if isinstance(x, dict):
            if "def" in x and isinstance(x["def"], (str, int)):
                out.add(x["def"])
            for y in x.values():
                walk(y)
        elif isinstance(x, list):
            for y in x:
                walk(y)

    walk(ctx.p.bodies[f]["body"])
    return out


# ------------------------------------------------------------------ C18
def C18(ctx):
    C = core(ctx)
    I = C.I
    ctx.rule("The loop-carried engine temperatures start at, and step to, exactly the temperature stack implied by the "
             "components' (initial) approach temperatures evaluated at their own condition terms; sink and source are "
             "loop-invariant and equal to the inputs; and State::update does so for every regenerator imbalance.")
    sink, source = at(C.args["inputs"], "temp_sink"), at(C.args["inputs"], "temp_source")
    for s, g, E in each_ok(C):
        st, comps = at(E, "state"), at(E, "components")
        ctx.same("sink temperature is the configured one%s" % s, at(st, "temp", "sink"), sink, C.where, g)
        ctx.same("source temperature is the configured one%s" % s, at(st, "temp", "source"), source, C.where, g)
        old, new = C.got_temps(st), C.new_temps(comps, st)
        c0 = C.args["comps"]
        ini = C.temps(sink, source, C.comp("chx", "initial_approach", c0), C.comp("regen", "initial_approach", c0),
                      C.comp("hhx", "initial_approach", c0), at(st, "regen_imbalance", "0"))
        for k in ("chx", "hhx", "cold", "avg", "hot"):
            r = C.rec.get(old[k].id)
            if r is None or r[4] is None:
                # not the plain loop-carried temperature: the returned temperature must then itself be a stack
                ctx.same("temperature %s follows from the approach temperatures%s" % (k, s), old[k], new[k], C.where, g)
                continue
            info = I.loopinfo[r[0]]
            ctx.same("initial %s temperature follows from the initial approaches%s" % (k, s), r[2], ini[k],
                     str(info["site"]), g)
            ctx.same("updated %s temperature follows from the approaches%s" % (k, s), r[4], new[k],
                     str(info["site"]), info["end"])
    imbalance(ctx)


def imbalance(ctx):
    """State::update with an arbitrary imbalance"""
    did = ctx.find("engine::state::State::<T>::update", required=False)
    if did is None:
        ctx.notes.append("State::update not found: general imbalance not checked")
        return
    p = ctx.p

    def go(I):
        ps = p.bodies[did]["params"]
        a = [I.symbol("u%d" % k, p.ty(x["ty"])) for k, x in enumerate(ps)]
        # series of one common length
        v = I.call_fn(did, a, {})
        return a, I.freeze(v)

    I, (a, v) = ctx.analyse(go)
    C = Core.__new__(Core)
    C.ctx, C.I = ctx, I
    st0 = next(x for x in a if isinstance(x, Struct) and "temp" in x.fields)
    cv = next((I.deref(x) for x in a if isinstance(x, DD)
               and isinstance(I.deref(x), Struct) and "regen" in I.deref(x).fields and "chx" in I.deref(x).fields), None)
    if cv is None:
        ctx.notes.append("State::update has another interface: general imbalance not checked")
        return
    C.args = {"fluid": st0.fields["fluid"]}
    for g, l in leaves(v):
        if not isinstance(l, Enum):
            continue
        st = l.fields["0"]
        if isinstance(st, DD):
            st = unbox(st)
        if l.variant != "Ok":
            continue
        told = Struct(st.adt, dict(st.fields))
        told.fields["temp"] = st0.fields["temp"]
        new, got = C.new_temps(cv, told), C.got_temps(st)
        for k in new:
            imb = at(st0, "regen_imbalance", "0")
            for sgn, cnd in (("positive", gt(imb, ZERO)), ("negative", lt(imb, ZERO))):
                ctx.same("updated %s temperature for a %s regenerator imbalance" % (k, sgn), got[k], new[k],
                         ctx.loc(did), band(g, cnd))
            a0 = {imb_atom(imb): ZERO}
            ctx.same("updated %s temperature without regenerator imbalance" % k, vsubst(got[k], a0),
                     vsubst(new[k], a0), ctx.loc(did), vsubst(g, a0))
        ctx.same("update keeps the sink temperature", at(st, "temp", "sink"), at(st0, "temp", "sink"), ctx.loc(did), g)
        ctx.same("update keeps the source temperature", at(st, "temp", "source"), at(st0, "temp", "source"),
                 ctx.loc(did), g)


def imb_atom(d):
    (m, c), = d.leaf.num.items()
    return m[0][0]


# ------------------------------------------------------------------ C27
def C27(ctx):
    C = core(ctx)
    ctx.rule("Each cycle average of the engine state is value-equal to the trapezoidal functional of its own series "
             "divided by the last time; extremes range over the whole pressure series; the infinite-resistance case "
             "contributes the term 0.")
    for s, g, E in each_ok(C):
        averages(ctx, C, s, g, E, "is the required average")
