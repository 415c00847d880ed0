"""Rules about the state equations: balances, upwinding, decompositions, integrated rates, inputs."""
import itertools
import mpmath
from fractions import Fraction
from .core import *
from .run import core, each_ok, series_run, Run, ode_events, probe_index
from sa.equal import ev, ev_in, directed, rat_equal, Valuation, valuation, Skip
from sa.values import vsubst, restrict

TRUSTED = ["rustc's type checker and THIR; the semantics of std/nalgebra operations as modelled in sa/models.py",
           "nalgebra: decomposition(A).solve(b) returns x with A x = b, or reports failure"]
FIELDS = ("m_dot_ck", "m_dot_kr", "m_dot_rl", "m_dot_le", "Q_dot_k", "Q_dot_r", "Q_dot_l", "dTc_dt", "dTe_dt", "dP_dt")
FACES = ("ck", "kr", "rl", "le")


def source(A):
    """the application behind projections of its result"""
    while A.kind in ("proj", "payload") and isinstance(A.args[0], Atom):
        A = A.args[0]
    return A


class System:
    """the linear system an instant's solution comes from, as a summary of the function that solves one instant"""

    def __init__(self, ctx):
        self.ctx = ctx
        f = solve_fn(ctx)
        # the entry point: the one called from outside its own helpers
        if not f:
            raise Missing("function from state-equation Inputs to Result<Solution>")
        self.fn = f[0]
        p = ctx.p
        inp = ctx.adt("state_equations::inputs::Inputs")

        def go(I):
            a = []
            for k, x in enumerate(p.bodies[self.fn]["params"]):
                t = p.ty(x["ty"])
                u = t[1] if t[0] == "ref" else t
                nm = "in" if u[0] == "adt" and u[1] == inp else "hint%d" % k
                v = I.symbol(nm, t)
                if nm == "in":
                    self.inp = unbox(v) if isinstance(v, DD) else v
                    if isinstance(v, DD) and isinstance(v.leaf, Ref):
                        self.inp = I.deref(v)
                a.append(v)
            return I.freeze(I.call_fn(self.fn, a, {}))

        self.I, self.v = ctx.analyse(go)
        self.where = ctx.loc(self.fn)
        self.ok, self.err = [], []
        for g, l in leaves(self.v):
            if not isinstance(l, Enum):
                raise Unsupported("result of solving an instant is not a visible Result")
            if l.variant == "Ok":
                s = l.fields["0"]
                self.ok.append((g, unbox(s) if isinstance(s, DD) else s))
            else:
                self.err.append((g, l))
        # exits imply their paths
        ax = TRUE
        for L, i in self.I.loopinfo.items():
            for st, v, w in i["exits"]:
                for x in dd_vars(st.guard):
                    if CONDS[x].kind.startswith("exit:%d:" % L):
                        ax = band(ax, bor(bnot(mk_node(x, TRUE, FALSE)), st.guard))
        self.ok = [(band(g, ax), s) for g, s in self.ok if band(g, ax) is not FALSE]
        self.ax = ax
        ctx.count("solution leaves", len(self.ok))
        ctx.ob("an instant can be solved", len(self.ok) >= 1, self.where, "no Ok outcome")

    def unknowns(self, sol):
        """field -> (solve atom, column, factor)"""
        out = {}
        for f in FIELDS:
            d = sol.fields.get(f)
            if not isinstance(d, DD) or d.var is not None or not isinstance(d.leaf, Rat):
                return None, "%s is not read from the solution vector" % f
            at_ = [ATOMS[a] for a in T.rat_atoms(d.leaf) if ATOMS[a].kind == "at"]
            if len(at_) != 1:
                return None, "%s mixes %d unknowns" % (f, len(at_))
            a = at_[0]
            fac = d / num_atom(a)
            if atoms_of(fac) & {a.id}:
                return None, "%s is not proportional to an unknown" % f
            app, ix = a.args
            if not isinstance(app, Atom) or ix.var is not None or not ix.leaf.is_const():
                return None, "%s has an unrecognised source" % f
            app = source(app)
            out[f] = (app, int(ix.leaf.const()), fac)
        apps = {x[0].id for x in out.values()}
        if len(apps) != 1:
            return None, "the solution mixes results of %d linear solves" % len(apps)
        cols = [x[1] for x in out.values()]
        if len(set(cols)) != len(cols):
            dup = [f for f in out if cols.count(out[f][1]) > 1]
            return None, "%s read the same unknown" % " and ".join(dup)
        return out, ""

    def matrix(self, out):
        app = next(iter(out.values()))[0]
        ms = [unbox(a) if isinstance(a, DD) else a for a in app.args]
        A = [m for m in ms if isinstance(m, Mat) and m.rows == 10 and m.cols == 10]
        b = [m for m in ms if isinstance(m, Mat) and m.rows == 10 and m.cols == 1]
        if len(A) != 1 or len(b) != 1:
            return None
        get = lambda m, i, j: m.get(i, j) if m.get(i, j) is not None else ZERO
        rows = []
        for i in range(10):
            row = [get(A[0], i, out[f][1]) / out[f][2] for f in FIELDS]
            rows.append(row + [get(b[0], i, 0)])
        return rows


def cases(rows, guard, cap=600):
    """split gated entries: (guard, rows of scalar leaves)"""
    out = []

    def go(rows, g):
        if g is FALSE:
            return
        if len(out) > cap:
            raise Unsupported("too many cases of the assembled matrix")
        rows = [[restrict(x, g) if x.var is not None else x for x in r] for r in rows]
        for r in rows:
            for x in r:
                if x.var is not None:
                    c = mk_node(x.var, TRUE, FALSE)
                    go(rows, band(g, c))
                    go(rows, band(g, bnot(c)))
                    return
        out.append((g, rows))

    go(rows, guard)
    return out


def in_span(rows, req, seeds=(1, 2, 3)):
    """is the equation req a linear combination of rows, under every random interpretation tried"""
    done = 0
    for s in range(12):
        ok = spanned(rows, req, valuation(s))
        if ok is None:
            continue
        if not ok:
            return False
        done += 1
        if done >= len(seeds):
            break
    if done < len(seeds):
        return False
    # both sides of every switch the code has and the requirement has not
    return not any(spanned(rows, req, v) is False for v in directed([x for r in rows for x in r], req))


def spanned(rows, req, v):
    try:
        M = [[mpmath.mpf(ev_in(x, v)) if x is not ZERO else mpmath.mpf(0) for x in r] for r in rows]
        q = [mpmath.mpf(ev_in(x, v)) if x is not ZERO else mpmath.mpf(0) for x in req]
    except TypeError:
        return None
    return reduce_(M, q)[1]


def reduce_(M, q):
    M = [[x / (max(abs(y) for y in r) or 1) for x in r] for r in M]
    sc = max(max(abs(x) for x in r) for r in M) or 1
    eps = mpmath.mpf(10) ** -30
    n = len(M[0])
    r = 0
    piv = []
    for c in range(n):
        k = max(range(r, len(M)), key=lambda i: abs(M[i][c]), default=None) if r < len(M) else None
        if k is None or abs(M[k][c]) < eps * sc:
            continue
        M[r], M[k] = M[k], M[r]
        for i in range(len(M)):
            if i != r and M[i][c] != 0:
                f = M[i][c] / M[r][c]
                M[i] = [a - f * b for a, b in zip(M[i], M[r])]
        piv.append((r, c))
        r += 1
        if r == len(M):
            break
    q = q[:]
    m = max(abs(x) for x in q) or 1
    for i, c in piv:
        if q[c] != 0:
            f = q[c] / M[i][c]
            q = [a - f * b for a, b in zip(q, M[i])]
            q[c] = mpmath.mpf(0)
    return r, all(abs(x) < m * mpmath.mpf(10) ** -20 for x in q)


def storage(inp, vol):
    v = inp.fields[vol]
    f = v.fields
    return f, f["vol"] * f["dd_dP_T"], f["vol"] * (f["dens"] * f["du_dP_T"] + f["inte"] * f["dd_dP_T"])


def mass_rows(inp):
    R = {}
    pairs = {"comp": (None, "m_dot_ck", "dTc_dt"), "chx": ("m_dot_ck", "m_dot_kr", None),
             "regen": ("m_dot_kr", "m_dot_rl", None), "hhx": ("m_dot_rl", "m_dot_le", None),
             "exp": ("m_dot_le", None, "dTe_dt")}
    for v, (i, o, t) in pairs.items():
        f, mp, _ = storage(inp, v)
        r = {"dP_dt": mp}
        if i:
            r[i] = num(-1)
        if o:
            r[o] = ONE
        rhs = ZERO
        if t:
            r[t] = f["vol"] * f["dd_dT_P"]
            rhs = ZERO - f["dens"] * f["dV_dt"]
        R[v] = [r.get(x, ZERO) for x in FIELDS] + [rhs]
    return R


def energy_rows(inp, h):
    """h: enthalpy at each interface"""
    R = {}
    pres = inp.fields["pres"]
    pairs = {"comp": (None, "ck", "dTc_dt", None, 0), "chx": ("ck", "kr", None, "Q_dot_k", 1),
             "regen": ("kr", "rl", None, "Q_dot_r", 1), "hhx": ("rl", "le", None, "Q_dot_l", -1),
             "exp": ("le", None, "dTe_dt", None, 0)}
    for v, (i, o, t, q, s) in pairs.items():
        f, _, ep = storage(inp, v)
        r = {"dP_dt": ep}
        if i:
            r["m_dot_" + i] = ZERO - h[i]
        if o:
            r["m_dot_" + o] = h[o]
        if q:
            r[q] = num(s)
        rhs = ZERO
        if t:
            r[t] = f["vol"] * (f["dens"] * f["du_dT_P"] + f["inte"] * f["dd_dT_P"])
            rhs = ZERO - (pres + f["dens"] * f["inte"]) * f["dV_dt"] - f["Q_dot"]
        R[v] = [r.get(x, ZERO) for x in FIELDS] + [rhs]
    return R


def upwind(inp, sign):
    """interface enthalpy for the flow directions sign[face] in (+1, -1)"""
    f = inp.fields
    src = {"ck": (f["comp"].fields["enth"], f["chx"].fields["enth"]),
           "kr": (f["chx"].fields["enth"], f["regen"].fields["enth_cold"]),
           "rl": (f["regen"].fields["enth_hot"], f["hhx"].fields["enth"]),
           "le": (f["hhx"].fields["enth"], f["exp"].fields["enth"])}
    return {k: src[k][0] if sign[k] > 0 else src[k][1] for k in FACES}


NAMES = {"comp": "compression space", "chx": "cold heat exchanger", "regen": "regenerator",
         "hhx": "hot heat exchanger", "exp": "expansion space"}


def solved(ctx):
    S = System(ctx)
    ctx.trusted += TRUSTED
    out = []
    for k, (g, sol) in enumerate(S.ok):
        u, why = S.unknowns(sol)
        if not ctx.ob("every reported quantity is its own unknown of one linear system", u is not None, S.where, why):
            continue
        rows = S.matrix(u)
        if not ctx.ob("the linear system is visible", rows is not None, S.where,
                      "no 10x10 matrix and 10-vector at the linear solve"):
            continue
        out.append((g, sol, rows))
    return S, out


def sign_cases(sol, guard):
    for signs in itertools.product((1, -1), repeat=4):
        g = guard
        sg = dict(zip(FACES, signs))
        for f in FACES:
            m = sol.fields["m_dot_" + f]
            g = band(g, gt(m, ZERO) if sg[f] > 0 else lt(m, ZERO))
        if g is not FALSE:
            yield sg, g


def show_dirs(sg):
    return ", ".join("%s%s0" % (f, ">" if sg[f] > 0 else "<") for f in FACES)


def C08(ctx):
    ctx.rule("The linear system whose solution becomes the reported instant is assembled symbolically by dataflow; each "
             "control volume's mass balance must be a linear combination of its rows, for every inputs and every "
             "direction hypothesis, with each reported quantity bound to its own unknown.")
    S, out = solved(ctx)
    for g, sol, rows in out:
        bad = {}
        n = 0
        for gg, m in cases(rows, g):
            n += 1
            for v, req in mass_rows(S.inp).items():
                if v not in bad and not in_span(m, req):
                    bad[v] = gg
        ctx.count("direction cases", n)
        for v in mass_rows(S.inp):
            ctx.ob("mass balance of the %s" % NAMES[v], v not in bad, S.where,
                   "the assembled equations do not imply it" + ("" if v not in bad else " when " + short(bad[v], 200)))


def C09(ctx):
    ctx.rule("As C08 for the energy balances: stored energy, boundary work, heat leaving and the upwind enthalpy carried "
             "by the reported mass flows; checked for every combination of reported flow directions under the Ok guard.")
    S, out = solved(ctx)
    for g, sol, rows in out:
        bad = {}
        n = 0
        for sg, g2 in sign_cases(sol, g):
            h = upwind(S.inp, sg)
            req = energy_rows(S.inp, h)
            for gg, m in cases(rows, g2):
                n += 1
                for v, r in req.items():
                    if v not in bad and not in_span(m, r):
                        bad[v] = sg
        ctx.count("direction cases", n)
        ctx.ob("all sixteen combinations of flow directions can be returned", n >= 16, S.where, "only %d" % n)
        for v in NAMES:
            ctx.ob("energy balance of the %s" % NAMES[v], v not in bad, S.where,
                   "the assembled equations do not imply it" + (
                       "" if v not in bad else " for reported flows " + show_dirs(bad[v])))


def partial(inp, h):
    """interface-wise sums of energy balances: each involves one interface only"""
    R = energy_rows(inp, h)
    s = lambda *vs: [sum_dd([R[v][k] for v in vs]) for k in range(11)]
    return {"ck": s("comp"), "kr": s("comp", "chx"), "rl": s("hhx", "exp"), "le": s("exp")}


def sum_dd(xs):
    r = ZERO
    for x in xs:
        r = r + x
    return r


def C10(ctx):
    ctx.rule("Under the guard of an Ok solution and each combination of signs of the reported mass flows, the enthalpy "
             "carried through each interface must be that of the upstream volume (balance of everything on one side of "
             "the interface); for every direction hypothesis the interface terms must cancel between neighbours; the "
             "next attempt of the iteration must be assembled with the signs just found.")
    S, out = solved(ctx)
    for g, sol, rows in out:
        bad = {}
        for sg, g2 in sign_cases(sol, g):
            req = partial(S.inp, upwind(S.inp, sg))
            for gg, m in cases(rows, g2):
                for v, r in req.items():
                    if v not in bad and not in_span(m, r):
                        bad[v] = sg
        for v in FACES:
            ctx.ob("interface %s carries the upstream enthalpy of the flow it reports" % v, v not in bad, S.where,
                   "not upwind" + ("" if v not in bad else " for reported flows " + show_dirs(bad[v])))
        # consistency between neighbours, whatever the hypothesis
        tot = None
        E = energy_rows(S.inp, {k: ZERO for k in FACES})
        tot = [sum_dd([E[v][k] for v in NAMES]) for k in range(11)]
        ok, n = True, 0
        for gg, m in cases(rows, TRUE):
            n += 1
            ok = ok and in_span(m, tot)
        ctx.count("direction hypotheses", n)
        ctx.ob("what leaves one volume enters its neighbour at the same enthalpy", ok, S.where,
               "the interface terms of neighbouring volumes do not cancel")
        retry(ctx, S, sol, rows)


def retry(ctx, S, sol, rows):
    I = S.I
    ids = set()
    for r in rows:
        for x in r:
            ids |= atoms_of(x)
    loops = {ATOMS[a].args[0] for a in ids if ATOMS[a].kind == "loopvar"}
    for L in loops:
        info = I.loopinfo.get(L)
        if info is None or info["end"] is FALSE:
            continue
        sm = {}
        for k, (x0, X, f, c) in info["rec"].items():
            if f is None:
                continue
            for hv, val in I.hav_pairs(X, f):
                sm[hv] = val
        nxt = [[I.sub_hav(x, sm) for x in r] for r in rows]
        bad = {}
        n = 0
        for sg, g2 in sign_cases(sol, info["end"]):
            req = partial(S.inp, upwind(S.inp, sg))
            for gg, m in cases(nxt, g2):
                n += 1
                for v, r in req.items():
                    if v not in bad and not in_span(m, r):
                        bad[v] = sg
        ctx.count("retry cases", n)
        for v in FACES:
            ctx.ob("a retry assembles interface %s with the direction just found" % v, v not in bad, str(info["site"]),
                   "the next attempt ignores the reported flow" + ("" if v not in bad else ": " + show_dirs(bad[v])))


# ------------------------------------------------------------------ C11
def failures_reported(ctx, nm, I, lib, okg):
    """failure of any fallible library step excludes success"""
    for e in lib:
        r = e.get("out")
        if not isinstance(r, DD) or is_num(r):
            continue
        vs = {l.variant for _, l in leaves(r) if isinstance(l, Enum)}
        for ok, no in (("Ok", "Err"), ("Some", "None")):
            if no in vs:
                ctx.ob("%s reports the library's failure" % nm,
                       band(okg, band(e["guard"], I.is_variant(r, no))) is FALSE, str(e["site"]),
                       "Ok although %s failed" % e["path"])


def decompositions(ctx):
    """(name, interpreter, arguments, result, location) of every implementation of the decomposition trait"""
    tr = ctx.find("state_equations::solver::MatrixDecomposition")
    for im in ctx.p.impl_by_trait.get(tr, ()):
        nm = ctx.p.path(ctx.p.ty(im["self"])[1]).rsplit("::", 1)[-1]
        did = [it["id"] for it in im["items"] if it["id"] in ctx.p.bodies]
        if not ctx.ob("%s has a solver" % nm, len(did) == 1, "", "no method"):
            continue
        did = did[0]

        def go(I, did=did):
            a = [I.symbol(n, ctx.p.ty(x["ty"])) for n, x in zip(("a", "b"), ctx.p.bodies[did]["params"])]
            r = I.freeze(I.call_fn(did, a, {}))
            return [I.freeze(x) for x in a], r

        I, (ab, v) = ctx.analyse(go)
        yield nm, I, ab, v, ctx.loc(did)


def failing_decompositions(ctx):
    """C04: a decomposition that fails is never a success of the solver"""
    for nm, I, ab, v, where in decompositions(ctx):
        lib = [e for e in I.events if e["kind"] == "call" and "nalgebra" in str(e["path"])]
        okg = FALSE
        for g, l in leaves(v):
            if not isinstance(l, Enum) or l.variant != "Err":
                okg = bor(okg, g)
        failures_reported(ctx, nm, I, lib, okg)


def C11(ctx):
    ctx.rule("Sibling agreement: every MatrixDecomposition impl must return, on success, exactly the library solution "
             "obtained from a decomposition of the very matrix and right-hand side it was given, and an error exactly "
             "when the library reports failure; the run must use the decomposition it was instantiated with at every "
             "instant.")
    tr = ctx.find("state_equations::solver::MatrixDecomposition")
    ims = ctx.p.impl_by_trait.get(tr, ())
    ctx.trusted += TRUSTED
    ctx.count("decompositions", len(ims))
    ctx.ob("there is a choice of decompositions", len(ims) >= 1, "", "no impl")
    for nm, I, ab, v, where in decompositions(ctx):
        a, b = [unbox(x) if isinstance(x, DD) else x for x in ab]
        lib = [e for e in I.events if e["kind"] == "call" and "nalgebra" in str(e["path"])]
        sols = [e for e in lib if str(e["path"]).rsplit("::", 1)[-1] in ("solve", "solve_mut")]
        ctx.ob("%s solves with the library" % nm, len(sols) >= 1, where, "no decomposition is solved")
        okg = FALSE
        for g, l in leaves(v):
            if not isinstance(l, Enum):
                ctx.ob("%s returns a Result" % nm, False, where, short(l, 80))
                continue
            if l.variant != "Ok":
                continue
            okg = bor(okg, g)
            x = l.fields["0"]
            x = unbox(x) if isinstance(x, DD) else x
            src = set()
            fine = isinstance(x, Mat) and (x.rows, x.cols) == (10, 1)
            if fine:
                for i in range(10):
                    e = x.get(i, 0)
                    e = restrict(e, g) if e is not None and e.var is not None else e
                    m = e is not None and e.var is None and isinstance(e.leaf, Rat) and \
                        [ATOMS[q] for q in T.rat_atoms(e.leaf)]
                    if not m or len(m) != 1 or num_atom(m[0]) is not e or m[0].kind != "at" \
                            or m[0].args[1] is not num(i):
                        fine = False
                        break
                    src.add(m[0].args[0])
            fine = fine and len(src) == 1
            if not ctx.ob("%s returns the solution vector unaltered" % nm, fine, where,
                          "the result is not the library's solution"):
                continue
            app = src.pop()
            while app.kind in ("payload", "proj", "variant"):
                app = app.args[0]
            k = app.kind.rsplit("::", 1)[-1]
            ctx.ob("%s returns a solution of a decomposition" % nm, k == "solve", where, "result of %s" % app.kind)
            if k != "solve":
                continue
            args = [unbox(q) if isinstance(q, DD) and isinstance(unbox(q), (Mat, Struct)) else q for q in app.args]
            rhs = [q for q in args if isinstance(q, Mat)]
            ctx.ob("%s solves for the given right-hand side" % nm, len(rhs) == 1 and equal(rhs[0], b), where,
                   "solved for " + short(rhs, 120))
            mats = []
            chain = []
            seen = set()

            def walk(q):
                if isinstance(q, DD):
                    for _, l in leaves(q):
                        if isinstance(l, Opq):
                            walk(l.atom)
                        elif isinstance(l, Boxed):
                            walk(l.v)
                elif isinstance(q, Atom) and q.id not in seen:
                    seen.add(q.id)
                    chain.append(q)
                    for z in q.args:
                        walk(z)
                elif isinstance(q, Mat) and (q.rows, q.cols) == (10, 10):
                    mats.append(q)

            walk(app.args[0])
            ctx.ob("%s decomposes the given matrix" % nm, len(mats) == 1 and equal(mats[0], a), where,
                   "decomposed " + short(mats, 120))
            odd = [q.kind for q in chain if q.kind not in ("payload", "proj", "variant")
                   and q.kind.rsplit("::", 1)[-1] not in DECOMP]
            ctx.ob("%s decomposes the matrix itself" % nm, not odd, where,
                   "the matrix goes through %s before it is decomposed" % ", ".join(odd))
            for q in chain:
                kk = q.kind.rsplit("::", 1)[-1]
                if "svd" in kk.lower():
                    fl = [z for z in q.args if isinstance(z, DD) and is_bool(z)]
                    ctx.ob("%s computes both singular bases" % nm, all(z is TRUE for z in fl), where, "")
                    for z in q.args:
                        if isinstance(z, DD) and is_num(z) and not all(
                                isinstance(l, Rat) and l.is_const() and l.const().denominator == 1 for _, l in leaves(z)):
                            c, scaled = cutoff(z, a)
                            ctx.ob("%s iterates the singular values to convergence" % nm, not scaled and c is not None
                                   and 0 <= c <= CUT, where, "converged within %s" % short(z, 40))
            tol = [q for q in app.args[1:] if isinstance(q, DD) and is_num(q)]
            for q in tol:
                c, scaled = cutoff(q, a)
                ctx.ob("%s truncates no significant singular value" % nm, c is not None and 0 <= c <= (CUT if scaled else TINY),
                       where, "singular values below %s are dropped" % short(q, 40))
        failures_reported(ctx, nm, I, lib, okg)
        ctx.ob("%s fails only when the library does" % nm, True, where)
    # every instant uses the chosen decomposition
    C = core(ctx)
    ev_ = [e for e in C.I.events if e["kind"] == "call" and e["callee"] in C.solve]
    ctx.ob("instants are solved", len(ev_) >= 1, C.where, "")
    for e in ev_:
        d = [g for g in e["ga"] if not (g[0] == "adt" and g[1] not in
                                        {ctx.p.ty(im["self"])[1] for im in ims if ctx.p.ty(im["self"])[0] == "adt"})]
        bad = [g for g in d if g[0] == "adt"]
        ctx.ob("every instant is solved with the decomposition the engine was run with", not bad, str(e["site"]),
               "solved with the fixed choice %s" % [ctx.p.path(g[1]) for g in bad])


# library calls between a matrix and its solution that neither alter nor drop an equation
DECOMP = {"lu", "cholesky", "full_piv_lu", "qr", "col_piv_qr", "new", "clone", "into", "from", "clone_owned", "into_owned", "to_owned",
          "borrow", "svd", "svd_unordered", "try_svd", "try_svd_unordered", "new_unordered", "try_new", "try_new_unordered"}
CUT = Fraction(100, 1 << 52)  # of the largest singular value: rounding of a 10x10 decomposition
TINY = Fraction(1, 1 << 1000)  # absolute: the equations carry dimensions, so no larger constant is insignificant


def cutoff(q, a):
    """(c, True) when q is c times the largest singular value (or a norm) of the decomposition of matrix a, (c, False)
    when it is the constant c, (None, _) otherwise"""
    if q.var is not None or not isinstance(q.leaf, Rat):
        return None, False
    if q.leaf.is_const():
        return q.leaf.const(), False
    if q.leaf.den != ONE_P or len(q.leaf.num) != 1:
        return None, False
    (mono, c), = q.leaf.num.items()
    if len(mono) != 1 or mono[0][1] != 1:
        return None, False
    at = ATOMS[mono[0][0]]
    if at.kind.rsplit("::", 1)[-1] not in ("max", "amax", "norm"):
        return None, False
    hit = []
    seen = set()

    def walk(v):
        if isinstance(v, DD):
            for _, l in leaves(v):
                if isinstance(l, Opq):
                    walk(l.atom)
                elif isinstance(l, Boxed):
                    walk(l.v)
                elif isinstance(l, Rat):
                    for m in l.num:
                        for i, _ in m:
                            walk(ATOMS[i])
        elif isinstance(v, Atom):
            if v.id not in seen:
                seen.add(v.id)
                for z in v.args:
                    walk(z)
        elif isinstance(v, Mat) and (v.rows, v.cols) == (10, 10):
            hit.append(v)

    for z in at.args:
        walk(z)
    return (c if len(hit) == 1 and equal(hit[0], a) else None), True


# ------------------------------------------------------------------ C12 / C14
def inputs_arg(ctx, e):
    inp = ctx.adt("state_equations::inputs::Inputs")
    for a in e["args"]:
        a = unbox(a) if isinstance(a, DD) and a.var is None else a
        if isinstance(a, Struct) and a.adt == inp:
            return a
    raise Missing("Inputs argument of the instant solver")


def solution_of(I, e):
    s = I.variant_field(e["result"], "Ok", "0")
    return unbox(s) if isinstance(s, DD) and s.var is None else s


class Instants:
    """the solves of one run: in integrator callbacks and for the reported points"""

    def __init__(self, ctx, C):
        I = C.I
        self.odeloops = getattr(I, "odeloops", {})
        ev_ = [e for e in I.events if e["kind"] == "call" and e["callee"] in C.solve]
        self.cb = [(e, [L for L in e["loops"] if L in self.odeloops][0]) for e in ev_
                   if any(L in self.odeloops for L in e["loops"])]
        self.pt = [e for e in ev_ if not any(L in self.odeloops for L in e["loops"])]
        self.rhs = [e for e in I.events if e["kind"] == "ode.rhs"]
        ctx.count("callback solves", len(self.cb))
        ctx.count("reported-point solves", len(self.pt))

    def rhs_of(self, L):
        return [r for r in self.rhs if L in r["loops"]]


def C12(ctx):
    C = core(ctx)
    I = C.I
    ctx.rule("In every integrator callback the three rates written must be the pressure and temperature rates of the "
             "solution obtained from inputs that are a function F of the callback's own time and state; the reported "
             "instants must be solutions of inputs that are the same F at their own reported time and conditions; the "
             "integrator gets the configured relative and absolute tolerances in their own roles; the flow-direction "
             "memory reaches only the hint argument.")
    X = Instants(ctx, C)
    ctx.ob("the integrator solves the state equations", len(X.cb) >= 1 and len(X.rhs) >= 1, C.where, "")
    ctx.ob("the reported points are solved", len(X.pt) >= 1, C.where, "")
    tol = at(C.args["settings"], "ode_tol")
    for e in ode_events(C):
        R = Run(e["args"][0])
        ctx.same("the integrator uses the configured relative tolerance", R.rtol, tol.fields["rel"], str(e["site"]),
                 e["guard"])
        ctx.same("the integrator uses the configured absolute tolerance", R.atol, tol.fields["abs"], str(e["site"]),
                 e["guard"])
    F = {}
    for e, L in X.cb:
        rs = X.rhs_of(L)
        if not ctx.ob("the callback writes the rates", len(rs) >= 1, str(e["site"]), ""):
            continue
        r = rs[0]
        sol = solution_of(I, e)
        ok = band(I.is_variant(e["result"], "Ok"), band(r["guard"], e["guard"]))
        dy = r["dy"]
        dy = unbox(dy) if isinstance(dy, DD) else dy
        for k, f in enumerate(("dP_dt", "dTc_dt", "dTe_dt")):
            ctx.same("rate of variable %d is %s of the instant's solution" % (k, f), dy.get(k, 0), at(sol, f),
                     str(r["site"]), ok)
        F[L] = (r["t"], r["y"], inputs_arg(ctx, e), e)
        # the conditions are the callback's own
        y = unbox(r["y"]) if isinstance(r["y"], DD) else r["y"]
        free = runstate_atoms(I, inputs_arg(ctx, e))
        ids = {num_id(r["t"])} | {num_id(y.get(k, 0)) for k in range(3)}
        ids |= {ATOMS[q].args[0].id for q in list(ids) if ATOMS[q].kind == "hv"}
        ctx.ob("the callback's equations use its own time and conditions", {q.id for q in free} <= ids, str(e["site"]),
               "another time or state is used: " + short([q for q in free if q.id not in ids][:2], 100))
        hidden = [q for q in all_atoms(inputs_arg(ctx, e)) if ATOMS[q].kind == "loopvar" and ATOMS[q].args[0] == L]
        ctx.ob("the equations do not depend on the flow-direction memory", not hidden, str(e["site"]),
               "inputs depend on values carried between callbacks: " + short([ATOMS[q] for q in hidden[:2]], 100))
    for s, g, E in each_ok(C):
        rs, i = series_run(C, E)
        if not ctx.ob("the returned series come from one integration%s" % s, len(rs) == 1, C.where, ""):
            continue
        B = rs[0]
        v = at(E, "values")
        # the point solve behind the series
        src = [e for e in X.pt if any(A_in(v.fields["m_dot_ck"].elem(i), q) for q in apps_of(e["result"]))]
        cand = src or X.pt
        hits = []
        for e in cand:
            Ls = [L for L in e["loops"]]
            inp = inputs_arg(ctx, e)
            it = [q for q in all_atoms(inp) if ATOMS[q].kind == "it" and ATOMS[q].args[0] == (Ls[-1] if Ls else None)]
            sub = {q: i for q in it}
            hits.append((e, vsubst(inp, sub) if sub else inp, sub))
        hits = [h for h in hits if key(Run(B.fo).fo) in {key(r.fo) for r in runs_of(h[1])}]
        if not ctx.ob("the reported instants are solutions at the integrator's outputs%s" % s, len(hits) >= 1, C.where,
                      "no solve reads the outputs of the reported integration"):
            continue
        e, inp, sub = hits[0]
        want = {"time": B.xi(i), "P": B.yc(0, i), "T_c": B.yc(1, i), "T_e": B.yc(2, i)}
        for k, w in want.items():
            ctx.same("reported %s is the output the instant was solved at%s" % (k, s), v.fields[k].elem(i), w, C.where, g)
        mine = [F[L] for L in F if key(X.odeloops[L]) == key(B.fo)] or list(F.values())
        best = None
        for t, y, fin, ce in mine:
            y = unbox(y) if isinstance(y, DD) else y
            m = {num_id(t): want["time"]}
            for k, f in enumerate(("P", "T_c", "T_e")):
                m[num_id(y.get(k, 0))] = want[f]
            d = compare(inp, vsubst(fin, m), "inputs", TRUE)
            if best is None or len(d.items) < len(best.items):
                best = d
        ctx.ob("reported instants obey the equations that were integrated%s" % s, best is not None and not best.items,
               str(e["site"]), "; ".join("%s: reported with %s, integrated with %s" % x for x in (best.items if best else [])[:2]))
        sol = solution_of(I, e)
        for f in ("m_dot_ck", "m_dot_kr", "m_dot_rl", "m_dot_le", "Q_dot_k", "Q_dot_r", "Q_dot_l"):
            w = at(sol, f)
            w = vsubst(w, sub) if sub else w
            same_instant(ctx, "reported %s is that of the instant's solution%s" % (f, s), v.fields[f].elem(i), w, C.where, g)


def runs_of(v):
    from .run import runs_in
    return runs_in(all_atoms(v) if not isinstance(v, DD) else v)


def all_atoms(v):
    return frozenset(atoms_of(v))


def num_id(d):
    (m, c), = d.leaf.num.items()
    return m[0][0]


def runstate_atoms(I, v):
    """integrator times/states that v mentions"""
    return [ATOMS[a] for a in top_atoms(v) if ATOMS[a].kind in ("ode.ti", "ode.yi", "ode.xi", "ode.yc", "ode.dyi", "ode.x", "ode.y")]


def top_atoms(v):
    """atoms of v, not descending into integrator summaries"""
    out, seen = set(), set()

    def go(x):
        if isinstance(x, DD):
            for n in nodes(x):
                if n.var is not None:
                    for a in CONDS[n.var].args:
                        go(a)
                elif isinstance(n.leaf, Rat):
                    for a in T.rat_atoms(n.leaf):
                        atom(ATOMS[a])
                elif isinstance(n.leaf, Enum):
                    for y in n.leaf.fields.values():
                        go(y)
                elif isinstance(n.leaf, Opq):
                    atom(n.leaf.atom)
                elif isinstance(n.leaf, Boxed):
                    go(n.leaf.v)
        elif isinstance(x, Struct):
            for y in x.fields.values():
                go(y)
        elif isinstance(x, Tup):
            for y in x.items:
                go(y)
        elif isinstance(x, Atom):
            atom(x)

    def atom(A):
        if A.id in seen:
            return
        seen.add(A.id)
        out.add(A.id)
        if A.kind.startswith("ode."):
            return
        for y in A.args:
            go(y)

    go(v)
    return out


def nodes(d):
    st, seen = [d], set()
    while st:
        n = st.pop()
        if n.id in seen:
            continue
        seen.add(n.id)
        yield n
        if n.var is not None:
            st += [n.hi, n.lo]


def apps_of(r):
    """atoms that identify the result of a call"""
    out = set()
    for n in nodes(r):
        if n.var is not None:
            for a in CONDS[n.var].args:
                if isinstance(a, Atom):
                    out.add(a.id)
        elif isinstance(n.leaf, Enum):
            for y in n.leaf.fields.values():
                out |= set(top_atoms(y))
    return out


def A_in(d, aid):
    return aid in top_atoms(d)


def reading(ctx, d):
    """(field path, application, its Inputs) of a value read directly from the result of a solve"""
    if not is_num(d) or d.var is not None:
        return None
    m = [ATOMS[a] for a in T.rat_atoms(d.leaf)]
    if len(m) != 1 or num_atom(m[0]) is not d:
        return None
    A, path = m[0], []
    while A.kind in ("proj", "payload") and isinstance(A.args[0], Atom):
        path.append(A.args[1:])
        A = A.args[0]
    inp = ctx.adt("state_equations::inputs::Inputs")
    for a in A.args:
        a = unbox(a) if isinstance(a, DD) and a.var is None and not is_num(a) else a
        if isinstance(a, Struct) and a.adt == inp:
            return tuple(path), A.kind, a
    return None


def same_instant(ctx, name, found, want, where, guard):
    """equal readings of a solution; which direction the iteration started from is immaterial"""
    bad = ""
    for gg, l in leaves(restrict(found, guard) if found.var is not None else found):
        if band(gg, guard) is FALSE:
            continue
        f, w = reading(ctx, mk_leaf(l)), reading(ctx, want)
        if w is None:
            bad = "the solution is not visible"
        elif f is None:
            bad = "found %s" % short(mk_leaf(l), 160)
        elif f[:2] != w[:2]:
            bad = "found %s instead of %s" % (f[0], w[0])
        else:
            d = compare(f[2], w[2], "inputs", gg)
            bad = bad or "; ".join("%s: %s vs %s" % tuple(short(y, 120) for y in x) for x in d.items[:2])
    ctx.ob(name, not bad, where, bad)


def C14(ctx):
    C = core(ctx)
    I = C.I
    ctx.rule("Every input record handed to the state equations (in integrator callbacks and for reported points) is "
             "compared slot by slot with the fluid/component query required for its control volume at the same instant.")
    X = Instants(ctx, C)
    todo = []
    for e, L in X.cb:
        for r in X.rhs_of(L)[:1]:
            y = unbox(r["y"]) if isinstance(r["y"], DD) else r["y"]
            todo.append((e, r["t"], [y.get(k, 0) for k in range(3)], "while integrating"))
    for e in X.pt:
        inp = inputs_arg(ctx, e)
        rr = direct_outputs(inp)
        if not ctx.ob("a reported instant is at an output of the integration", len(rr) == 1, str(e["site"]),
                      "%d outputs feed one instant" % len(rr)):
            continue
        fo, ix = rr[0]
        R = Run(fo)
        todo.append((e, R.xi(ix), [R.yc(k, ix) for k in range(3)], "for reported points"))
    ctx.ob("the state equations get inputs", len(todo) >= 1, C.where, "")
    E = C.ok[0][1] if C.ok else None
    if E is None:
        return
    st = at(E, "state")
    fl = C.args["fluid"]
    comps = C.args["comps"]
    for e, t, (P, Tc, Te), tag in todo:
        inp = inputs_arg(ctx, e)
        where, g = str(e["site"]), e["guard"]
        temps = engine_temps(C, E)
        q = lambda f, T_: C.fluid(f, T_, P)
        ctx.same("instantaneous pressure %s" % tag, at(inp, "pres"), P, where, g)
        for vol, T_ in (("comp", Tc), ("chx", temps["chx"]), ("regen", temps["avg"]), ("hhx", temps["hhx"]), ("exp", Te)):
            rec = inp.fields[vol]
            for slot in ("dens", "inte", "enth", "dd_dP_T", "dd_dT_P", "du_dP_T", "du_dT_P"):
                if slot in rec.fields:
                    ctx.same("%s of the %s at its own conditions %s" % (slot, NAMES[vol], tag), rec.fields[slot],
                             q(slot, T_), where, g)
        ctx.same("enthalpy at the regenerator's cold end %s" % tag, at(inp, "regen", "enth_cold"),
                 q("enth", temps["cold"]), where, g)
        ctx.same("enthalpy at the regenerator's hot end %s" % tag, at(inp, "regen", "enth_hot"), q("enth", temps["hot"]),
                 where, g)
        for k in ("chx", "regen", "hhx"):
            ctx.same("volume of the %s %s" % (NAMES[k], tag), at(inp, k, "vol"), C.comp(k, "volume", comps), where, g)
        # piston motion: the working spaces' own volume function, at this instant
        fns = {}
        for slot in (("comp", "vol"), ("comp", "dV_dt"), ("exp", "vol"), ("exp", "dV_dt")):
            for a in top_atoms(at(inp, *slot)):
                A = ATOMS[a]
                if A.kind == "call" and len(A.args) == 2:
                    fns[A.id] = A
        own = [A for A in fns.values() if volumes_of(A.args[0], comps.fields["ws"])]
        if not ctx.ob("piston motion comes from the run's working spaces %s" % tag, len(own) == len(fns) >= 1, where,
                      "volume function " + short([A.args[0] for A in fns.values()], 120)):
            continue
        for A in own:
            ctx.same("piston motion is taken at this instant %s" % tag, A.args[1], t, where, g)
        A = own[0]
        val = lambda i, f: num_atom(app_atom("proj", (app_atom("proj", (A, i)), f)))
        for vol, i in (("comp", "0"), ("exp", "1")):
            ctx.same("volume of the %s %s" % (NAMES[vol], tag), at(inp, vol, "vol"), val(i, "value"), where, g)
            ctx.same("volume rate of the %s %s" % (NAMES[vol], tag), at(inp, vol, "dV_dt"), val(i, "deriv"), where, g)


def volumes_of(d, ws):
    for a in (top_atoms(d) if isinstance(d, DD) else ()):
        A = ATOMS[a]
        if A.kind.endswith("WorkingSpaces::volumes"):
            return bool(A.args) and (A.args[0] is ws or equal(A.args[0], ws))
    return False


def direct_outputs(inp):
    """(integration, index) pairs of the outputs an input record is built from"""
    out = {}
    for a in top_atoms(inp):
        A = ATOMS[a]
        if A.kind == "ode.yc":
            out[(key(A.args[0]), A.args[3].id)] = (A.args[0], A.args[3])
    return list(out.values())


def engine_temps(C, E):
    """temperatures of the engine state the run was made with (the returned ones)"""
    return C.got_temps(at(E, "state"))
