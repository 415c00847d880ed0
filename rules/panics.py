"""C05: no implemented model aborts a run."""
import re
from .equations import *
from .config import entries
from .models import entry, LONG
from .results import reported
from .effects import Reach, walk
from .run import *
from sa.values import restrict, vsubst

KINDS = {"panic": "aborts", "index": "indexes only what exists", "underflow": "subtracts only what is there",
         "divzero": "divides integers by zero nowhere", "dims": "combines vectors of equal length"}
IMPLEMENTED = {"chx": ("FixedApproach", "FixedConductance"), "hhx": ("FixedApproach", "FixedConductance"),
               "regen": ("FixedApproach", "FixedConductance"), "ws": ("Sinusoidal", "Rhombic")}
PANICKY = re.compile(r"(^|::)(unwrap|expect|unwrap_err|expect_err|unwrap_unchecked)$|"
                     r"(^|::)(panic|panic_fmt|panic_display|unreachable_display|panic_explicit|assert_failed|panic_nounwind|panic_str|unimplemented|"
                     r"panic_bounds_check|begin_panic)$")
UNBOUNDED = {"svd": None, "svd_unordered": None, "new": "SVD", "new_unordered": "SVD", "symmetric_eigen": None,
             "schur": None, "eigenvalues": None, "complex_eigenvalues": None, "singular_values": None,
             "singular_values_unordered": None, "rank": None, "pseudo_inverse": None}
BOUNDED = {"try_svd": 4, "try_svd_unordered": 4, "try_new": 4, "try_new_unordered": 4, "try_schur": 2,
           "try_symmetric_eigen": 2}


def lemmas(g, I=None):
    """facts about the atoms of a guard that the term algebra does not relate: linear consequences between
    comparisons (whole numbers keep a distance of one), including 0 <= index < trip count inside a counted loop,
    minima, lengths, and that an integration that returned has kept its starting point"""
    xs = [(x, CONDS[x]) for x in dd_vars(g)]
    xs = [(x, c) for x, c in xs if c.kind in ("neg", "zero", "pos") and len(c.args) and is_num(c.args[0])]
    unit, seen, found, far = [], set(), [], []
    for x, c in xs:
        lit = mk_node(x, TRUE, FALSE)
        for gp, r in leaves(c.args[0]):
            p, whole = linear(r)
            if p is None:
                continue
            units(p, I, unit, seen)
            yes, no = band(lit, gp), band(bnot(lit), gp)
            up, dn = strict(p, 1, whole), strict(p, -1, whole)  # p > 0, p < 0
            ge, le = (p, False), (shift(p, -1, 0), False)
            found.append((c.kind, yes, no, up, dn, ge, le))
            if c.kind == "zero" and whole and len(c.group) == 2:  # neither negative nor zero
                far.append((band(no, bnot(mk_node(c.group[0].id, TRUE, FALSE))), up))
    sums = [(TRUE, ({}, False))] + [(c, (u, False)) for c, u in unit] + \
        [(band(c, d), (plus((u, v)), False)) for k, (c, u) in enumerate(unit) for d, v in unit[:k]
         if set(u) & set(v) - {None}]
    by = {}
    for c, u in sums:
        if c is not FALSE:
            by.setdefault(frozenset(k for k in u[0] if k is not None), []).append((c, u))

    def clash(*ps):
        """condition under which the facts contradict the sum of these inequalities"""
        out = FALSE
        s = plus(p for p, _ in ps)
        st = any(t for _, t in ps)
        for c, (u, _) in by.get(frozenset(q for q in s if q is not None), ()):
            t = plus((s, u))
            if all(q is None for q in t) and (t.get(None, 0) < 0 or st and not t.get(None, 0)):
                out = bor(out, c)
        return out

    out = TRUE
    lits = far
    for kind, yes, no, up, dn, ge, le in found:
        if kind == "neg":
            lits += [(yes, dn), (no, ge)]
        elif kind == "pos":
            lits += [(yes, up), (no, le)]
        else:
            lits += [(yes, ge), (yes, le)]
            # different from zero: one side or the other
            cu, cd = clash(up), clash(dn)
            lits += [(band(no, cd), up), (band(no, cu), dn)]
    lits = [(h, p) for h, p in lits if h is not FALSE]
    for k, (h, p) in enumerate(lits):
        out = band(out, bnot(band(h, clash(p))))
        for h2, p2 in lits[:k]:
            if set(p[0]) & set(p2[0]) - {None}:
                c = clash(p, p2)
                if c is not FALSE:
                    out = band(out, bnot(band(band(h, h2), c)))
    return out


def plus(ps):
    out = {}
    for p in ps:
        for k, v in p.items():
            v = out.get(k, 0) + v
            if v:
                out[k] = v
            else:
                out.pop(k, None)
    return out


def shift(p, sign, k):
    return plus(({a: sign * v for a, v in p.items()}, {None: k}))


def strict(p, sign, whole):
    """sign * p > 0, as (form, strict): form >= 0 or form > 0"""
    return (shift(p, sign, -1), False) if whole else (shift(p, sign, 0), True)


def linear(r):
    """linear form of a term ({symbol: coefficient, None: constant}, takes only whole values); a product counts as
    a symbol, lengths of the series of one finished run count as one (their equality is an obligation of its own)"""
    if not isinstance(r, Rat) or r.den != T.ONE_P:
        return None, False
    out, whole = {}, True
    for m, c in r.num.items():
        whole = whole and c.denominator == 1
        if not m:
            out = plus((out, {None: c}))
            continue
        k = ("product", m)
        if len(m) == 1 and m[0][1] == 1:
            a = ATOMS[m[0][0]]
            whole = whole and (a.integer or a.kind in ("len", "ode.len"))
            k = series_len(a)
            if a.kind in ("min", "max"):  # of equal lengths
                fs = [linear(q.leaf if isinstance(q, DD) and q.var is None else q)[0] for q in a.args]
                if fs[0] is not None and all(q == fs[0] for q in fs):
                    out = plus((out, {q: c * v for q, v in fs[0].items()}))
                    continue
        else:
            whole = whole and all(ATOMS[q].integer for q, _ in m)
        out = plus((out, {k: c}))
    return out, whole


def series_len(a):
    if a.kind == "len":
        b = a.args[0]
        if isinstance(b, type(a)) and b.kind == "proj":
            b = b.args[0]
            if isinstance(b, type(a)) and b.kind == "proj" and b.args[1] == "values":
                return ("series", b.args[0].id if isinstance(b.args[0], type(a)) else key(b.args[0]))
    return a.id


def units(p, I, out, seen):
    """facts (condition, form >= 0) about the symbols of a linear form"""
    for k in p:
        if k is None or k in seen:
            continue
        seen.add(k)
        if isinstance(k, tuple):
            if k[0] == "series":
                out.append((TRUE, {k: 1}))
            continue
        a = ATOMS[k]
        if a.kind == "ode.len":
            out.append((TRUE, {k: 1, None: -1}))
        elif a.kind in ("len", "it") or k in T.NONNEG:
            out.append((TRUE, {k: 1}))
        if a.kind == "it" and I is not None:
            i = I.loopinfo.get(a.args[0])
            top = i and (i["n"] if i["n"] is not None else i.get("bound"))
            if top is not None and i["index"] is a:
                # a while loop is left when its count is reached, at the latest
                for gn, r in leaves(top):
                    n = linear(r)[0]
                    if n is not None and (i.get("range") or T.rat_nonneg(r)):
                        out.append((gn, plus((n, {k: -1, None: 0 if i["n"] is not None and not i["range"] else -1}))))
                        units(n, I, out, seen)
        if a.kind in ("min", "max") and len(a.args) == 2:
            for q in a.args:
                for gq, q in leaves(mk_leaf(q) if isinstance(q, Rat) else q):
                    q = linear(q)[0]
                    if q is not None:
                        s = 1 if a.kind == "min" else -1
                        out.append((gq, plus((shift(q, s, 0), {k: -s}))))
                        units(q, I, out, seen)


def feasible(e, ax=TRUE, I=None):
    g = band(e["guard"], ax)
    if e["kind"] != "panic" and e.get("cond") is not None:
        g = band(g, e["cond"])
    if g is FALSE:
        return FALSE
    return band(g, lemmas(g, I))


def judge(ctx, I, where, ax=TRUE, allowed=None):
    n = 0
    for e in I.events:
        if e["kind"] not in KINDS:
            continue
        n += 1
        g = feasible(e, ax, I)
        if g is not FALSE and allowed is not None and allowed(e, g):
            g = FALSE
        what = str(e.get("callee", "")).rsplit("::", 1)[-1]
        ctx.ob("%s %s" % (where, KINDS[e["kind"]] if e["kind"] != "panic" else "never reaches %s" % (what or "a panic")),
               g is FALSE, str(e["site"]), "reached when %s" % short(g, 300))
    ctx.count("panicking operations on paths of %s" % where, n)
    return n


def helper_panics(ctx, notes, where):
    """functions the value-flow analysis left uninterpreted must contain no panicking operation at all"""
    p = ctx.p
    for nt in notes:
        path = nt.split(" left uninterpreted", 1)[0]
        for d in p.ids(path):
            for f, x, why in panic_sites(ctx, d):
                ctx.ob("%s never reaches %s" % (where, why), False, "%s in %s" % (x.get("sp"), p.path(f)),
                       "in a function outside the analysed language")


def panic_sites(ctx, d, seen=None):
    p = ctx.p
    seen = set() if seen is None else seen
    if d in seen or d not in p.bodies:
        return
    seen.add(d)
    for x in walk(p.bodies[d]):
        if x.get("k") == "index":
            yield d, x, "an index that may be out of range"
        q = x.get("def")
        if isinstance(q, str):
            if PANICKY.search(p.path(q)):
                yield d, x, p.path(q).rsplit("::", 1)[-1]
            elif q in p.bodies:
                yield from panic_sites(ctx, q, seen)
        if x.get("k") in ("zst", "closure") and "ty" in x:
            t = p.ty(x["ty"])
            if t[0] in ("fndef", "closure"):
                yield from panic_sites(ctx, t[1], seen)


def methods(ctx, adt):
    """(trait, method) of every trait of this library implemented by a type"""
    p = ctx.p
    for tr, ims in p.impl_by_trait.items():
        if not p.defs.get(tr, {}).get("local"):
            continue
        for im in ims:
            t = p.ty(im["self"])
            if t[0] == "adt" and t[1] == adt:
                for it in im["items"]:
                    if it["id"] in p.bodies:
                        yield tr, it["id"]


def C05(ctx):
    p = ctx.p
    ctx.rule("Every operation that can abort (never-returning calls, unwrap/expect, indexing, unsigned subtraction, integer "
             "division, vector operations of unequal length, overlapping borrows) on any path of a run is an "
             "obligation: its path condition must be infeasible for implemented models. Covered: Engine::run over "
             "arbitrary components, the public entry point from an arbitrary configuration, the instant solver, every "
             "decomposition, every implemented component and fluid method, the results, the legacy conversion. Library "
             "iterations without a limit are forbidden where the data can be non-finite.")
    ctx.trusted += TRUSTED
    ctx.trusted.append("an explicit Runge-Kutta integration that returns Ok has kept at least its starting point")
    # Engine::run
    C = core(ctx)
    judge(ctx, C.I, "Engine::run", C.axioms())
    for s, g, E in each_ok(C):
        v = E.fields["values"].fields
        t = v["time"].length()
        for k, x in v.items():
            ctx.same("every series of a finished run has one length", x.length(), t, "%s, series %s" % (C.where, k), g)
    # entry points
    for n in entries(ctx):
        E = entry(ctx, n)
        rt = p.ty(p.defs[E.fn]["sig"][1])
        if not (rt[0] == "adt" and p.path(rt[1]) == RESULT):
            ctx.notes.append("%s cannot report an error and is not covered" % p.path(E.fn))
            continue
        # the region of implemented choices
        ok = TRUE
        for kind, vs in IMPLEMENTED.items():
            g = FALSE
            for v in vs:
                g = bor(g, E.I.is_variant(E.choice(kind), v))
            ok = band(ok, g)
        g = FALSE
        fl = E.choice("fluid")
        for v in E.variants("fluid"):
            gv = E.I.is_variant(fl, v)
            m = E.I.variant_field(fl, v, "0")
            g = bor(g, band(gv, E.I.is_variant(m, "IdealGas")))
        ok = band(ok, g)
        nm = p.path(E.fn).rsplit("::", 1)[-1]
        judge(ctx, E.I, nm, ok)
        ctx.entails("%s runs every configuration of implemented models" % nm, ok, E.guard, E.site,
                    "some implemented configuration never reaches the run")
        # the models it builds
        done = set()
        for kind, vs in IMPLEMENTED.items():
            for v in vs:
                a = E.impl(kind, v)
                if a is None:
                    ctx.ob("%s %s is one model" % (v, LONG[kind]), False, E.where, "cannot tell which type is built")
                    continue
                done.add(a)
        f = E.args["fluid"]
        for _, l in leaves(f) if isinstance(f, DD) else [(TRUE, f)]:
            a = E.adt_of(l)
            if a is not None:
                done.add(a)
        for a in sorted(done):
            model(ctx, a)
    # instant solver
    S, _ = solved(ctx)
    judge(ctx, S.I, "the instant solver")
    for o in [o for o in ctx.obs if o["key"].startswith(("every reported quantity", "the linear system is visible"))]:
        ctx.obs.remove(o)
    decompositions(ctx)
    X = reported(ctx)
    judge(ctx, X.I, "RunResults::from")
    borrows(ctx)
    helper_panics(ctx, list(ctx.notes), "a run")


def model(ctx, adt):
    p = ctx.p
    nm = p.path(adt)
    n = 0
    for tr, did in methods(ctx, adt):
        def go(I, did=did):
            b = p.bodies[did]
            a = []
            for k, x in enumerate(b["params"]):
                a.append(I.symbol("self" if k == 0 else "a%d" % k, p.ty(x["ty"])))
            r = I.call_fn(did, a, {})
            r = I.deref(r)
            if is_closure(r):
                r = I.apply(r, [T.sym("t")])
            return I.freeze(r)

        I, _ = ctx.analyse(go)
        judge(ctx, I, p.path(did))
        n += 1
    ctx.ob("%s has methods to analyse" % nm, n >= 1, nm, "no method found")


def is_closure(v):
    if isinstance(v, Boxed):
        v = v.v
    if isinstance(v, DD) and v.var is None:
        v = unbox(v)
    return type(v).__name__ in ("Closure", "Clo", "PyFn")


def decompositions(ctx):
    p = ctx.p
    tr = ctx.find("state_equations::solver::MatrixDecomposition")
    for im in p.impl_by_trait.get(tr, ()):
        nm = p.path(p.ty(im["self"])[1]).rsplit("::", 1)[-1]
        for it in im["items"]:
            did = it["id"]
            if did not in p.bodies:
                continue

            def go(I, did=did):
                a = [I.symbol(n, p.ty(x["ty"])) for n, x in zip(("a", "b"), p.bodies[did]["params"])]
                return I.freeze(I.call_fn(did, a, {}))

            I, _ = ctx.analyse(go)
            judge(ctx, I, nm)
            for e in I.events:
                if e["kind"] != "call":
                    continue
                path = str(e["path"])
                k = path.rsplit("::", 1)[-1]
                if "nalgebra" not in path:
                    continue
                ctx.count("library calls of decompositions")
                un = k in UNBOUNDED and (UNBOUNDED[k] is None or UNBOUNDED[k] in path)
                ctx.ob("%s iterates a limited number of times" % nm, not un, str(e["site"]),
                       "%s iterates until it converges, which it never does for a matrix that is not finite" % k)
                if k in BOUNDED and len(e["args"]) > BOUNDED[k]:
                    m = e["args"][BOUNDED[k]]
                    good = isinstance(m, DD) and m.var is None and m.leaf.is_const() and m.leaf.const() > 0
                    ctx.ob("%s iterates a limited number of times" % nm, good, str(e["site"]),
                           "iteration limit %s (zero means none)" % short(m, 60))


# ------------------------------------------------------------------ borrows
MUTATE = ("replace", "replace_with", "take", "borrow_mut", "set", "swap", "update")


def cell_op(p, d):
    path = p.path(d)
    return path.rsplit("::", 1)[-1] if isinstance(path, str) and re.search(r"cell::RefCell(::)?<", path) else None


def borrows(ctx):
    """typestate of RefCell guards on each control-flow graph: where a guard is alive, no conflicting access of a
    cell of that type may happen, directly or in a callee"""
    p = ctx.p
    R = Reach(ctx)
    callers, own = {}, {}
    for f, q, _ in R.edges:
        op = cell_op(p, q)
        if op in MUTATE or op == "borrow":
            own.setdefault(f, set()).add(op)
        for t in R.targets(q):
            callers.setdefault(t, set()).add(f)

    def closure(start):
        seen, todo = set(start), list(start)
        while todo:
            for g in callers.get(todo.pop(), ()):
                if g not in seen:
                    seen.add(g)
                    todo.append(g)
        return seen

    mut = closure([f for f, o in own.items() if o & set(MUTATE)])
    shared = closure(list(own))
    n = 0
    for f, g in sorted(p.guards.items()):
        ctx.analysed.add(f)
        gs = {l: (k, c) for l, k, c in g["guards"]}
        B = g["blocks"]
        live = {0: frozenset()}
        todo = [0]
        bad = {}
        while todo:
            b = todo.pop()
            cur = set(live[b])
            blk = B[b]
            for s in blk["s"]:
                if s[0] == "dead":
                    cur.discard(s[1])
                else:
                    if set(s[2]) & cur:
                        cur -= set(s[2])
                        if s[1] in gs:
                            cur.add(s[1])
            out = set(cur)
            if "drop" in blk:
                out.discard(blk["drop"])
            if "dest" in blk:
                moved = set(blk["moved"]) & cur
                out -= moved
                d = blk.get("def")
                op = cell_op(p, d) if d else None
                for l in cur - moved:
                    k, c = gs[l]
                    if op is not None:
                        hit = (op in MUTATE or (op == "borrow" and k == "RefMut")) and \
                            (not blk.get("ga") or blk["ga"][0] == c)
                        if hit:
                            bad.setdefault((l, blk["sp"]), "%s at %s" % (op, blk["sp"]))
                    elif d:
                        tab = shared if k == "RefMut" else mut
                        for t in R.targets(d):
                            if t in tab:
                                bad.setdefault((l, blk["sp"]), "%s called at %s" % (p.path(t), blk["sp"]))
                if blk["dest"] in gs:
                    n += 1
                    out.add(blk["dest"])
            for s in blk["succ"]:
                new = live.get(s, frozenset()) | out
                if s not in live or new != live[s]:
                    live[s] = new
                    todo.append(s)
        ctx.ob("no cell is changed while it is borrowed in %s" % p.path(f), not bad, ctx.loc(f),
               "a borrow is still alive at %s" % "; ".join(sorted(set(bad.values()))))
    ctx.count("borrows of interior-mutable cells", n)
