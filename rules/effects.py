"""C32: what a run may depend on and leave behind, over the resolved call graph."""
import re
from .core import *
from .config import entries

# sources of ambient state in the standard library (by path prefix)
DENY = (
    ("a clock", r"^(std|core)::time::(Instant|SystemTime)"),
    ("the environment", r"^std::env::"),
    ("the file system", r"^std::(fs|path::Path::(exists|is_file|is_dir|metadata|read_dir|canonicalize|read_link|symlink_metadata|try_exists))"),
    ("the operating system", r"^std::os::"),
    ("standard input", r"^std::io::(stdin|Stdin|Read|BufRead|read_to_string)"),
    ("the network", r"^std::net::"),
    ("another process", r"^std::process::"),
    ("thread identity or scheduling", r"^std::thread::"),
    ("thread-local state", r"^std::thread::(local|LocalKey)"),
    ("a randomly seeded hash table", r"^std::(collections::hash|hash::random|collections::Hash|hash::RandomState)"),
    ("the panic machinery's state", r"^std::panic(king)?::(catch_unwind|set_hook|take_hook|update_hook|panic_count)"),
    ("the call stack", r"^std::backtrace::"),
    ("uninitialised memory", r"MaybeUninit.*::(assume_init|uninit_array|array_assume_init)|mem::uninitialized|::set_len$"),
    ("raw memory", r"^(std|core)::(ptr|alloc|arch)::|(std|core)::intrinsics::(?!discriminant_value|unreachable)|ptr::(const_ptr|mut_ptr)::|^std::mem::transmute"),
)
CRATES = {"core", "std", "alloc", "nalgebra", "ode_solvers", "anyhow", "itertools", "serde", "serde_core", "num_traits",
          "simba", "approx", "typenum"}


def walk(x):
    if isinstance(x, dict):
        yield x
        for v in x.values():
            yield from walk(v)
    elif isinstance(x, list):
        for v in x:
            yield from walk(v)


def crate_of(path):
    q = path
    while q.startswith("<"):
        # <A as B>::f belongs to the trait; <A>::f to the type
        m = re.search(r" as ([^>]*)", q)
        q = m.group(1) if m else q[1:]
    q = q.lstrip("&'( [")
    q = re.sub(r"^(mut|dyn) ", "", q)
    return re.match(r"\w*", q).group(0)


class Reach:
    def __init__(self, ctx):
        self.ctx, p = ctx, ctx.p
        self.p = p
        run = ctx.find("engine::Engine::<T>::run")
        roots = {run}
        for n in entries(ctx):
            roots.update(p.ids(n))
        for d in p.bodies:
            x = p.defs.get(d) or {}
            if x.get("kind") in ("Fn", "AssocFn") and "Public" in str(x.get("vis")) and "::_::" not in p.path(d):
                roots.add(d)
        # every implementation of a trait of this library can be called by a run
        local_traits = set()
        for tr, ims in p.impl_by_trait.items():
            for im in ims:
                ids = [it["id"] for it in im["items"]]
                if p.defs.get(tr, {}).get("local"):
                    local_traits.add(tr)
                    roots.update(ids)
                elif p.path(tr) in ("std::convert::From", "std::convert::Into", "std::default::Default",
                                    "ode_solvers::System", "std::ops::Drop", "std::clone::Clone", "std::ops::Add",
                                    "std::ops::Deref", "std::iter::Iterator"):
                    roots.update(i for i in ids if i in p.bodies and "::_::" not in p.path(i))
        self.seen, self.edges = {}, []
        todo = [(r, None) for r in sorted(roots) if r in p.bodies]
        while todo:
            d, by = todo.pop()
            if d in self.seen:
                continue
            self.seen[d] = by
            for x in walk(p.bodies[d]):
                for q in self.refs(x):
                    self.edges.append((d, q, x))
                    for t in self.targets(q):
                        if t in p.bodies and t not in self.seen:
                            todo.append((t, d))

    def refs(self, x):
        if "def" in x and isinstance(x["def"], str):
            yield x["def"]
        if x.get("k") in ("zst", "closure") and "ty" in x:
            t = self.p.ty(x["ty"])
            if t[0] in ("fndef", "closure"):
                yield t[1]

    def targets(self, q):
        yield q
        d = self.p.defs.get(q) or {}
        if d.get("trait"):
            for im in self.p.impl_by_trait.get(d["trait"], ()):
                it = im["_items"].get(q) if "_items" in im else None
                if it:
                    yield it["id"]

    def chain(self, d):
        out = []
        while d is not None and len(out) < 8:
            out.append(self.p.path(d))
            d = self.seen.get(d)
        return " <- ".join(out)


def C32(ctx):
    p = ctx.p
    ctx.rule("Effect analysis over the resolved call graph from every public function, every implementation of the "
             "library's traits and every closure: no callee may be a clock, environment, file, network, process, thread, "
             "random-seed or raw-memory operation of the standard library or belong to a crate outside the audited "
             "set; no static may be mutable or have interior mutability, no thread-local may exist, no address may "
             "become a number. Printing is allowed: nothing a run can read depends on it.")
    ctx.trusted.append("the audited crates (%s) keep no state between calls that changes results" % ", ".join(sorted(CRATES)))
    R = Reach(ctx)
    ctx.analysed |= set(R.seen)
    ctx.ob("the run is part of the call graph", any(p.path(d).endswith("Engine::<T>::run") for d in R.seen), "", "")
    seen = set()
    for f, q, x in R.edges:
        d = p.defs.get(q) or {}
        if d.get("local") and q not in p.bodies and d.get("kind") in ("Fn", "AssocFn") and not d.get("trait"):
            ctx.ob("%s has a body to analyse" % p.path(q), False, p.path(f), "foreign or intrinsic function")
        if d.get("local") or q.startswith("0:") or (p.path(f), q) in seen:
            continue
        seen.add((p.path(f), q))
        if d.get("kind") not in ("Fn", "AssocFn", "Ctor", None) and x.get("k") not in ("static", "threadlocal", "const"):
            continue
        path = p.path(q)
        ctx.count("external references")
        bad = [w for w, r in DENY if re.search(r, path)]
        ctx.ob("%s is not used by %s" % (bad[0] if bad else "ambient state", p.path(f)) if bad
               else "%s uses no ambient state through %s" % (p.path(f), path), not bad, x.get("sp") or p.path(f),
               "%s, reached through %s" % (path, R.chain(f)))
        c = crate_of(path)
        if c not in CRATES and c not in PRIM:
            ctx.ob("%s stays within the audited crates" % p.path(f), False, x.get("sp") or p.path(f),
                   "%s (crate %s), reached through %s" % (path, c, R.chain(f)))
    # statics
    for d, x in p.defs.items():
        if str(x.get("kind", "")).startswith("Static") and x.get("local"):
            ctx.count("statics")
            ctx.ob("static %s is immutable" % p.path(d), not x.get("mut") and x.get("freeze", False), ctx.loc(d),
                   "a mutable static is shared by all runs")
    for f in R.seen:
        for x in walk(p.bodies[f]):
            if x.get("k") == "threadlocal":
                ctx.ob("%s uses no thread-local" % p.path(f), False, x.get("sp") or p.path(f), R.chain(f))
            if x.get("k") == "static":
                q = p.defs.get(x["def"]) or {}
                ctx.ob("the static read by %s is immutable" % p.path(f), not q.get("mut") and q.get("freeze", False),
                       x.get("sp") or p.path(f), p.path(x["def"]))
            if x.get("k") == "cast" and "ty" in x and "ty" in x.get("e", {}):
                a, b = p.ty(x["e"]["ty"]), p.ty(x["ty"])
                if a[0] in ("ref", "ptr", "fnptr", "fndef", "other") and b[0] in ("int", "uint", "prim"):
                    ctx.ob("%s turns no address into a number" % p.path(f), False, x.get("sp") or p.path(f), R.chain(f))
    ctx.count("functions reached", len(R.seen))


PRIM = {"f64", "f32", "u8", "u32", "u64", "usize", "i32", "i64", "isize", "bool", "str", "char", ""}
