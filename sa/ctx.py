"""What a rule needs: the program, the analyser, obligations and their verdicts."""
import json
import os
import time
from .values import *
from . import term as T
from .interp import Interp, Unsupported, PyFn, csubst
from .equal import compare, equal, entails, dd_vars, Diff
from . import build


class Missing(Exception):
    """a construct the property is anchored in is not there (any more)"""


class Ctx:
    def __init__(self, prop, tier, seed, prog=None):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.p = prog
        self.obs = []
        self.analysed = set()
        self.counts = {}
        self.rules = []
        self.notes = []
        self.trusted = []
        self.cache = {}

    # ---------------------------------------------------------------- obligations
    def ob(self, key, ok, where="", detail="", sig=None):
        """one proof obligation; `key` names it (no line numbers), `where` locates it"""
        self.obs.append({"key": key, "ok": bool(ok), "where": where, "detail": "" if ok else detail,
                         "sig": sig})
        return bool(ok)

    def same(self, key, found, required, where="", guard=TRUE):
        d = compare(found, required, "", guard)
        det = "; ".join("%s: found %s, required %s" % (p or "value", g, w) for p, g, w in d.items[:4])
        return self.ob(key, not d.items, where, det)

    def entails(self, key, guard, cond, where="", detail=""):
        return self.ob(key, entails(guard, cond), where, detail)

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def rule(self, text):
        self.rules.append(text)

    # ---------------------------------------------------------------- program lookup
    def loc(self, did):
        d = self.p.defs.get(did) or {}
        b = self.p.bodies.get(did) or {}
        sp = b.get("sp") or d.get("sp") or ""
        return "%s (%s)" % (self.p.path(did), sp) if sp else self.p.path(did)

    def find(self, path, required=True, kind=None):
        """definition by path; a renamed module falls back to a unique item of the same name"""
        ids = self.p.ids(path)
        if len(ids) >= 1:
            return ids[0]
        last = path.rsplit("::", 1)[-1]
        c = [x["id"] for x in self.p.raw["defs"] if x.get("local") and x["path"].rsplit("::", 1)[-1] == last
             and "{closure" not in x["path"] and (kind is None or x["kind"] == kind)]
        if len(c) == 1:
            return c[0]
        if required:
            raise Missing(path)
        return None

    def adt(self, path, required=True):
        r = self.find(path, False)
        if r is None or r not in self.p.adts:
            c = [i for i in self.p.adts if self.p.defs.get(i, {}).get("local")
                 and self.p.path(i).rsplit("::", 1)[-1] == path.rsplit("::", 1)[-1]]
            m = [i for i in c if self.p.path(i).split("::")[0] == path.split("::")[0]]
            r = c[0] if len(c) == 1 else m[0] if len(m) == 1 else None
        if r is None and required:
            raise Missing(path)
        return r

    def tmethod(self, path):
        return self.find(path)

    def adt_ty(self, path, args=()):
        return ("adt", self.adt(path), tuple(args))

    def impl_of(self, trait, self_path=None, targ_path=None):
        """(impl row) of a trait for a type (by ADT path)"""
        tr = self.find(trait) if isinstance(trait, str) and not trait.startswith("#") else trait
        for im in self.p.impl_by_trait.get(tr, ()):
            t = self.p.ty(im["self"])
            if self_path is not None and not (t[0] == "adt" and t[1] == self_path):
                continue
            if targ_path is not None:
                a = self.p.ty(im["targs"][1])
                if a[0] == "ref":
                    a = a[1]
                if not (a[0] == "adt" and a[1] == targ_path):
                    continue
            return im
        return None

    # ---------------------------------------------------------------- analysis
    def interp(self, **kw):
        I = Interp(self.p, **kw)
        I.ctx = self
        return I

    def done(self, I):
        self.analysed |= I.analysed

    def analyse(self, fn, boundary=None, tries=6):
        """run fn(I); when some helper is beyond the analyser, restart with that helper uninterpreted"""
        b = dict(boundary or {})
        for _ in range(tries):
            I = self.interp(boundary=dict(b))
            try:
                r = fn(I)
                self.done(I)
                return I, r
            except Unsupported as x:
                cand = None
                for path, why in I.unsupported:
                    ids = self.p.ids(path)
                    if ids and ids[0] not in b:
                        cand = (ids[0], path, why)
                        break
                if cand is None:
                    raise
                b[cand[0]] = True
                self.notes.append("%s left uninterpreted: %s" % (cand[1], cand[2]))
        raise Unsupported("too many functions beyond the analyser")

    def call(self, I, did, args, subst=None, rty=None):
        """call a local function or trait method from the specification side"""
        d = self.p.defs[did]
        if rty is None:
            rty = self.p.ty(d["sig"][1])
        return I.call_def(did, list((subst or {}).values()) if isinstance(subst, dict) else list(subst or ()),
                          args, rty, {"sp": "spec"})

    def fty(self, adt, f):
        for v in self.p.adts[adt]["variants"]:
            for x in v["fields"]:
                if x["name"] == f:
                    return self.p.ty(x["ty"])
        raise Missing("%s.%s" % (self.p.path(adt), f))
