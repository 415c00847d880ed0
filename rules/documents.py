"""C23: what the derived deserialisers accept, read off their expanded bodies."""
import json
import os
import re
from .core import *

DOC = os.path.join(os.path.dirname(os.path.abspath(__file__)), "documented_keys.json")


def walk(x):
    if isinstance(x, dict):
        yield x
        for v in x.values():
            yield from walk(v)
    elif isinstance(x, list):
        for v in x:
            yield from walk(v)


def norm(s):
    return s.replace("_", "").lower()


def str_const(c):
    if "str" in c:
        return c["str"]
    m = re.match(r"^Branch\(\[(.*)\]\): str$", c.get("other", ""))
    if m:
        b = [int(re.sub(r"_?u8$", "", t.strip())) for t in m.group(1).split(",") if t.strip()]
        return bytes(b).decode()
    m = re.match(r'^"(.*)"$', c.get("other", ""))
    return m.group(1) if m else None


class Doc:
    def __init__(self, ctx):
        self.ctx = ctx
        self.p = ctx.p
        self.impls = {}
        for tr, ims in ctx.p.impl_by_trait.items():
            if ctx.p.path(tr).rsplit("::", 1)[-1] != "Deserialize":
                continue
            for im in ims:
                t = ctx.p.ty(im["self"])
                if t[0] == "adt" and ctx.p.defs.get(t[1], {}).get("local"):
                    for it in im["items"]:
                        if it["name"] == "deserialize":
                            self.impls.setdefault(t[1], []).append(it["id"])
        self.paths = {}
        self.seen = []

    # ------------------------------------------------------------ pieces of one implementation
    def bodies(self, adt):
        """{simple name: body} of the functions inside the type's deserialiser"""
        root = self.p.path(self.impls[adt][0])
        out = {}
        for d, b in self.p.bodies.items():
            q = self.p.path(d)
            if q == root:
                out["deserialize"] = b
            elif root + "::" in q:
                inner = q.split(root + "::", 1)[1]
                who = re.match(r"\w+", inner).group(0)
                out[who + "::" + q.rsplit("::", 1)[-1]] = b
        return out

    def spellings(self, b, where):
        """spelling -> field identifier, and the identifier everything else is"""
        out, rest = {}, None
        m = [x for x in walk(b["body"]) if x.get("k") == "match"]
        if len(m) != 1:
            return None, None
        for arm in m[0]["arms"]:
            pat = arm["pat"]
            alts = pat["subs"] if pat.get("k") == "or" else [pat]
            alts = [a.get("pat", a) if isinstance(a, dict) else a for a in alts]
            tgt = [x["v"] for x in walk(arm["body"]) if x.get("k") == "adt" and x["v"].startswith("__")]
            for a in alts:
                while a.get("k") == "deref":
                    a = a["sub"]
                if a.get("k") == "const":
                    s = str_const(a["value"])
                    if s is None or not tgt:
                        return None, None
                    out.setdefault(s, []).append(tgt[0])
                elif a.get("k") in ("wild", "bind"):
                    rest = tgt[0] if tgt else "error"
                else:
                    return None, None
        return out, rest

    def lits(self, x):
        return [y["value"]["str"] for y in walk(x) if y.get("k") == "lit" and "str" in (y.get("value") or {})]

    # ------------------------------------------------------------ structs
    def struct(self, adt, path):
        ctx, p = self.ctx, self.p
        name = p.path(adt)
        bs = self.bodies(adt)
        w = ctx.loc(adt)
        fields = {f["name"]: p.ty(f["ty"]) for f in p.adts[adt]["variants"][0]["fields"]}
        vs, vm = bs.get("__FieldVisitor::visit_str"), bs.get("__Visitor::visit_map")
        if not ctx.ob("%s is read field by field" % name, bool(vs and vm), w,
                      "the deserialiser is not a plain field-by-field one"):
            return
        sp, rest = self.spellings(vs, w)
        if not ctx.ob("the keys of %s can be read off" % name, sp is not None, w, "unrecognised key matching"):
            return
        ctx.ob("an unknown key of %s is no parameter" % name, rest in ("__ignore", "error"), w, "taken as %s" % rest)
        # which local each identifier fills, which local each missing_field belongs to, which field each local becomes
        var_of, miss, into = {}, {}, {}
        for x in walk(vm["body"]):
            if x.get("k") == "match":
                for arm in x["arms"]:
                    pt = arm["pat"]
                    if pt.get("k") == "variant" and pt["v"].startswith("__field"):
                        for a in walk(arm["body"]):
                            if a.get("k") == "assign" and a["l"].get("k") == "var":
                                tys = [self.p.ty(t) for c in walk(a["r"]) if c.get("k") == "call"
                                       and self.p.path(c["def"]).endswith("::next_value") for t in c["ga"][1:2]]
                                var_of[pt["v"]] = (a["l"]["var"], tys)
            if x.get("s") == "let" and x.get("init") and x["pat"].get("k") == "bind":
                init = x["init"]
                if init.get("k") == "match" and init["e"].get("k") == "var":
                    keys = [l for c in walk(init) if c.get("k") == "call"
                            and self.p.path(c["def"]).endswith("missing_field") for l in self.lits(c["args"])]
                    some = [a for a in init["arms"] if a["pat"].get("v") == "Some"]
                    bound = [y["var"] for a in some for y in walk(a["pat"]) if y.get("k") == "bind"]
                    plain = some and some[0]["body"].get("k") == "var" and some[0]["body"]["var"] in bound
                    if plain:
                        miss[init["e"]["var"]] = (keys, x["pat"]["var"])
            if x.get("k") == "adt" and x["def"] == adt:
                for f, e in x["fields"]:
                    into[f] = e.get("var") if e.get("k") == "var" else None
        keys = {}
        for s, ids in sp.items():
            for i in ids:
                keys.setdefault(i, []).append(s)
        done = set()
        for i, ss in sorted(keys.items()):
            ctx.count("keys")
            k = ss[0]
            full = "%s.%s" % (path, k)
            ctx.ob("one spelling of %s" % full, len(ss) == 1, w, "accepted as %s" % ", ".join(ss))
            var, tys = var_of.get(i, (None, []))
            mk, final = miss.get(var, ([], None))
            ctx.ob("%s is mandatory" % full, k in mk, w,
                   "a document without it is not rejected" if not mk else "reported missing as %s" % mk)
            tgt = [f for f, v in into.items() if v is not None and v == final]
            f = tgt[0] if len(tgt) == 1 else None
            if not ctx.ob("%s sets one parameter" % full, f is not None, w, "sets %s" % tgt):
                continue
            done.add(f)
            ctx.ob("%s sets the parameter of that name" % full, norm(f) == norm(k), w, "it sets %s" % f)
            ft = fields.get(f)
            ctx.ob("%s is read as what it is" % full, tys == [ft], w, "read through another type")
            opt = ft and ft[0] == "adt" and p.path(ft[1]) == "std::option::Option"
            ctx.ob("%s cannot be left out" % full, not opt, w, "an absent key becomes None")
            self.value(ft, full)
        for f in fields:
            ctx.ob("%s.%s comes from the document" % (name, f), f in done, w, "no key sets it")

    # ------------------------------------------------------------ enums
    def enum(self, adt, path):
        ctx, p = self.ctx, self.p
        name = p.path(adt)
        w = ctx.loc(adt)
        bs = self.bodies(adt)
        vs = bs.get("__FieldVisitor::visit_str")
        if not ctx.ob("the choice %s is read by name" % name, vs is not None, w, "choices are not identified by name"):
            return
        sp, rest = self.spellings(vs, w)
        if not ctx.ob("the choices of %s can be read off" % name, sp is not None, w, "unrecognised matching"):
            return
        ctx.ob("an unknown choice of %s is rejected" % name, rest in ("error", None), w, "taken as %s" % rest)
        tag = self.tagging(bs)
        made = {}
        for q, b in bs.items():
            for x in walk(b["body"]):
                if x.get("k") != "match":
                    continue
                for arm in x["arms"]:
                    ids = [y["v"] for y in walk(arm["pat"]) if y.get("k") == "variant" and y["v"].startswith("__field")]
                    if len(ids) != 1:
                        continue
                    for y in walk(arm["body"]):
                        if y.get("k") == "adt" and y["def"] == adt:
                            made.setdefault(ids[0], set()).add(y["v"])
                        if y.get("k") == "zst":
                            t = p.ty(y["ty"])
                            if t[0] == "fndef" and p.path(t[1]).startswith(name + "::"):
                                made.setdefault(ids[0], set()).add(p.path(t[1])[len(name) + 2:].split("::")[0])
        keys = {}
        for s, ids in sp.items():
            for i in ids:
                keys.setdefault(i, []).append(s)
        vmap = {v["name"]: v["fields"] for v in p.adts[adt]["variants"]}
        done = set()
        for i, ss in sorted(keys.items()):
            ctx.count("choices")
            full = "%s%s=%s" % (path, tag, ss[0])
            ctx.ob("one spelling of %s" % full, len(ss) == 1, w, "accepted as %s" % ", ".join(ss))
            m = sorted(made.get(i, ()))
            if not ctx.ob("%s makes one choice" % full, len(m) == 1, w, "makes %s" % m):
                continue
            done.add(m[0])
            ctx.ob("%s makes the choice of that name" % full, norm(m[0]) == norm(ss[0]), w, "it makes %s" % m[0])
            fs = vmap[m[0]]
            if not fs:
                self.paths[full] = "choice"
            for f in fs:
                self.value(p.ty(f["ty"]), full)
        for v in vmap:
            ctx.ob("%s::%s can be chosen" % (name, v), v in done, w, "no spelling selects it")

    def tagging(self, bs):
        """how a choice is marked: '' external, '[model]' internal, '[model/params]' adjacent"""
        b = bs["deserialize"]
        for x in walk(b["body"]):
            if x.get("k") == "adt" and x["v"] == "TagOrContentFieldVisitor":
                d = dict(x["fields"])
                return "[%s/%s]" % ("".join(self.lits(d["tag"])), "".join(self.lits(d["content"])))
            if x.get("k") == "call" and "TaggedContentVisitor" in self.p.path(x["def"]):
                return "[%s]" % self.lits(x["args"])[0]
        for q, bb in bs.items():
            for x in walk(bb["body"]):
                if x.get("k") == "adt" and x["v"] == "TagOrContentFieldVisitor":
                    d = dict(x["fields"])
                    return "[%s/%s]" % ("".join(self.lits(d["tag"])), "".join(self.lits(d["content"])))
        return ""

    # ------------------------------------------------------------ any value
    def value(self, t, path):
        p = self.p
        if t[0] == "adt" and t[1] in self.impls:
            if len(self.seen) > 40:
                return
            self.seen.append(t)
            self.ctx.analysed.add(self.impls[t[1]][0])
            if p.adts[t[1]]["kind"] == "enum":
                self.enum(t[1], path)
            else:
                self.struct(t[1], path)
            self.seen.pop()
        else:
            self.paths[path] = t[1] if t[0] == "prim" else str(t[1] if len(t) > 1 else t[0])


def C23(ctx):
    ctx.rule("The expanded derived deserialisers, walked from the two document roots: each key has one spelling, fills one "
             "local through a value of the parameter's own type, is reported missing when absent, and ends in the "
             "parameter of that name; each choice has one spelling, builds that variant, unknown choices are errors. "
             "The resulting set of accepted document paths must be the documented one.")
    want = json.load(open(DOC)) if os.path.exists(DOC) else {}
    got = {}
    for root in ("config::Config", "config::Legacy"):
        D = Doc(ctx)
        a = ctx.adt(root)
        if not ctx.ob("%s can be read from a document" % root, a in D.impls, ctx.loc(a), "no deserialiser"):
            continue
        D.value(("adt", a, ()), root.split("::")[1])
        got.update(D.paths)
    if os.environ.get("SETT_WRITE_KEYS"):
        json.dump(got, open(DOC, "w"), indent=1, sort_keys=True)
        want = got
    ctx.count("documented paths", len(want))
    for k in sorted(set(got) | set(want)):
        ctx.ob("documented: %s" % k, got.get(k) == want.get(k), "",
               "documented but not accepted" if k not in got else "accepted but not documented" if k not in want
               else "read as %s, documented as %s" % (got[k], want[k]))
