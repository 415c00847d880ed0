"""The type-checked program as dumped by the rustc driver: bodies, types, impl tables."""
import json


class Prog:
    def __init__(self, path):
        d = json.load(open(path))
        self.raw = d
        self.defs = {x["id"]: x for x in d["defs"]}
        self.adts = d["adts"]
        self.bodies = {b["id"]: b for b in d["bodies"]}
        self.guards = {b["id"]: b.pop("guards") for b in d["bodies"] if b.get("guards")}
        self.impls = d["impls"]
        self.types = d["types"]
        self._ty = {}
        self.bypath = {}
        for x in d["defs"]:
            self.bypath.setdefault(x["path"], []).append(x["id"])
        self.impl_by_trait = {}
        self.derived = set()
        for im in self.impls:
            im["_items"] = {}
            for it in im["items"]:
                if "titem" in it:
                    im["_items"][it["titem"]] = it
                if im.get("derived"):
                    self.derived.add(it["id"])
            if "trait" in im:
                self.impl_by_trait.setdefault(im["trait"], []).append(im)
        self.titems = {}
        for x in d["defs"]:
            if "trait" in x and "impl" not in x:
                self.titems.setdefault(x["trait"], {})[x["name"]] = x["id"]

    # ---- types as tuples
    def ty(self, i):
        t = self._ty.get(i)
        if t is not None:
            return t
        if not isinstance(i, int):
            return ("const", str(i))
        r = self.types[i]
        k = r["k"]
        if k == "adt":
            t = ("adt", r["def"], tuple(self.ty(a) for a in r["args"]))
        elif k in ("float", "int"):
            t = (k, r["n"])
        elif k in ("bool", "char", "str", "never"):
            t = (k,)
        elif k == "array":
            t = ("array", self.ty(r["t"]), r["len"])
        elif k == "slice":
            t = ("slice", self.ty(r["t"]))
        elif k in ("ptr", "ref"):
            t = ("ref", self.ty(r["t"]), r["mut"])
        elif k == "fndef":
            t = ("fndef", r["def"], tuple(self.ty(a) for a in r["args"]))
        elif k == "closure":
            t = ("closure", r["def"])
        elif k == "dyn":
            t = ("dyn", r["def"])
        elif k == "tuple":
            t = ("tuple", tuple(self.ty(a) for a in r["ts"]))
        elif k == "param":
            t = ("param", r["n"])
        elif k == "alias":
            t = ("alias", r["def"], tuple(self.ty(a) for a in r["args"]))
        else:
            t = ("other", r["s"])
        self._ty[i] = t
        return t

    def subst(self, t, s):
        if not s:
            return t
        k = t[0]
        if k == "param":
            return s.get(t[1], t)
        if k == "const":
            r = s.get(t[1])
            return r if r is not None else t
        if k in ("adt", "fndef"):
            return (k, t[1], tuple(self.subst(a, s) for a in t[2]))
        if k == "alias":
            return self.norm(("alias", t[1], tuple(self.subst(a, s) for a in t[2])))
        if k == "array":
            n = s.get(t[2])
            return ("array", self.subst(t[1], s), n[1] if n and n[0] == "const" else t[2])
        if k == "slice":
            return (k, self.subst(t[1], s))
        if k == "ref":
            return (k, self.subst(t[1], s), t[2])
        if k == "tuple":
            return (k, tuple(self.subst(a, s) for a in t[1]))
        return t

    def norm(self, t):
        """normalise a projection through a local impl, when there is one"""
        d = self.defs.get(t[1])
        if not d or "trait" not in d:
            return t
        m = self.find_impl(d["trait"], t[2])
        if m:
            im, s = m
            it = im["_items"].get(t[1])
            if it and "ty" in it:
                return self.subst(self.ty(it["ty"]), s)
        return t

    def unify(self, p, t, s):
        k = p[0]
        if k == "param":
            if p[1] in s:
                return s[p[1]] == t
            s[p[1]] = t
            return True
        if k == "const":
            if p == t:
                return True
            # const generic parameter
            if not p[1].lstrip("-").isdigit() and t[0] == "const":
                s[p[1]] = t
                return True
            return False
        if k == "alias":
            return True
        if k != t[0]:
            return False
        if k in ("adt", "fndef"):
            return (
                p[1] == t[1]
                and len(p[2]) == len(t[2])
                and all(self.unify(a, b, s) for a, b in zip(p[2], t[2]))
            )
        if k == "array":
            return self.unify(p[1], t[1], s)
        if k == "slice":
            return self.unify(p[1], t[1], s)
        if k == "ref":
            return p[2] == t[2] and self.unify(p[1], t[1], s)
        if k == "tuple":
            return len(p[1]) == len(t[1]) and all(self.unify(a, b, s) for a, b in zip(p[1], t[1]))
        return p == t

    def find_impl(self, trait, targs):
        """(impl, substitution) for a trait reference, or None. targs: (Self, args...)"""
        if targs and targs[0][0] in ("param", "dyn", "alias"):
            return None
        for im in self.impl_by_trait.get(trait, ()):
            s = {}
            ps = [self.ty(a) for a in im["targs"]]
            if len(ps) != len(targs):
                continue
            if all(self.unify(p, t, s) for p, t in zip(ps, targs)):
                return im, s
        return None

    def ids(self, path):
        return self.bypath.get(path, [])

    def adt_variant(self, adt, v):
        for x in self.adts[adt]["variants"]:
            if x["name"] == v:
                return x
        return None

    def path(self, id):
        d = self.defs.get(id)
        if d:
            return d["path"]
        b = self.bodies.get(id)
        return b["path"] if b else id
