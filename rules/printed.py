"""What the example runner prints."""
from .models import *
from .run import from_engine
from sa.values import StrV, Opq, Lst


class Unreadable(Exception):
    pass


def template(raw):
    """pieces of a compiled format template: str or (argument index, options); see core::fmt::Arguments"""
    b = [ord(c) for c in raw]
    out, i, nxt = [], 0, 0
    while i < len(b):
        c = b[i]
        i += 1
        if c == 0:
            return out
        if c <= 0x80:
            n = c
            if c == 0x80:
                n = b[i] | b[i + 1] << 8
                i += 2
            out.append(bytes(b[i:i + n]).decode("utf-8"))
            i += n
            continue
        if c & 0xC0 != 0xC0:
            raise Unreadable("format template")
        opt = []
        for bit, n in ((1, 4), (2, 2), (4, 2)):
            if c & bit:
                opt.append((bit, int.from_bytes(bytes(b[i:i + n]), "little")))
                i += n
        k = nxt
        if c & 8:
            k = b[i] | b[i + 1] << 8
            i += 2
        nxt = k + 1
        if c & 0x30:
            raise Unreadable("width or precision taken from an argument")
        out.append((k, tuple(opt)))
    raise Unreadable("format template")


def one(v):
    while isinstance(v, DD):
        if v.var is not None:
            raise Unreadable("text chosen by a condition")
        if isinstance(v.leaf, Struct) or not isinstance(v.leaf, (StrV, Opq, Lst, Boxed)):
            return v
        v = v.leaf
    return v.v if isinstance(v, Boxed) else v


def padded(s, opt):
    """constant text under width and alignment options"""
    o = dict(opt)
    fl = o.pop(1, 0)
    w = o.pop(2, None)
    if o:
        raise Unreadable("precision on text")
    if w is None:
        return s
    fill, al = fl & 0x1FFFFF or 0x20, (fl >> 29) & 3
    fill = chr(fill)
    return s.ljust(w, fill) if al in (0, 3) else s.rjust(w, fill) if al == 1 else s.center(w, fill)


def text(I, v):
    """tokens: str or (style, value)"""
    l = one(v)
    if isinstance(l, StrV):
        return [l.s]
    if not isinstance(l, Opq) or l.atom.id not in I.texts:
        raise Unreadable("text built by %s" % short(v, 80))
    path, a = I.texts[l.atom.id]
    nm = path.rsplit("::", 1)[-1]
    if nm == "format":
        return text(I, a[0])
    if nm == "concat":
        return text(I, a[0]) + text(I, a[1])
    if nm != "new":
        raise Unreadable("text built by %s" % path)
    t = one(a[0])
    if not isinstance(t, StrV) or not t.s.startswith("b:"):
        raise Unreadable("format template %r" % (t,))
    ar = items(one(a[1])) if len(a) > 1 else []
    out = []
    for p in template(t.s[2:]):
        if isinstance(p, str):
            out.append(p)
            continue
        x = one(ar[p[0]])
        if not isinstance(x, Opq) or x.atom.id not in I.texts:
            raise Unreadable("argument %s" % short(ar[p[0]], 80))
        path, (x,) = I.texts[x.atom.id]
        nm = path.rsplit("::", 1)[-1]
        if nm == "new_display":
            try:
                ts = text(I, x)
                if not p[1]:
                    out += ts
                    continue
                out.append(padded("".join(ts), p[1]))
                continue
            except (Unreadable, TypeError):
                pass
        out.append((nm[4:] + (str(p[1]) if p[1] else ""), x))
    return out


def items(l):
    if isinstance(l, Lst):
        return l.items
    raise Unreadable("argument list %r" % (l,))


def joined(ts):
    out = []
    for t in ts:
        if isinstance(t, str) and out and isinstance(out[-1], str):
            out[-1] += t
        elif t != "":
            out.append(t)
    return out


LABELS = (("time", "-----------------\ntime:  "), ("P", "\nP:     "), ("T_c", "\nT_c:   "), ("T_e", "\nT_e:   "))


def C39(ctx):
    p = ctx.p
    ctx.rule("Symbolic reading of everything the printing runner writes: the compiled format templates and their "
             "arguments, over all configurations, must be the documented labels each followed by that very series of "
             "the engine the run returned, then the full results derived from the same engine; nothing is written "
             "unless the run succeeded; the debug form of the results shows each field under its own name.")
    conv = from_engine(ctx)
    unit = [n for n in runners(ctx) if p.ty(p.defs[ctx.find(n)]["sig"][1]) == ("tuple", ())]
    for n in unit:
        E = entry(ctx, n, (conv,))
        I = E.I
        tag = n.rsplit("::", 1)[-1]
        w = E.where
        if not ctx.ob("%s runs one engine" % tag, len(E.runs) == 1, w, "%d runs" % len(E.runs)):
            continue
        r = E.runs[0]["result"]
        ok = band(E.guard, I.is_variant(r, "Ok"))
        eng = I.variant_field(r, "Ok", "0")
        eng = unbox(eng) if isinstance(eng, DD) and eng.var is None and not is_num(eng) else eng
        got = []
        io = [e for e in I.events if e["kind"] == "io" and e["callee"].endswith("::_print")]
        ctx.ob("%s writes its output" % tag, bool(io), w, "nothing is printed")
        for e in io:
            if e["loops"]:
                raise Unsupported("printing in a loop of unknown length")
            g = e["guard"]
            ctx.entails("%s prints only for a successful run" % tag, g, ok, str(e["site"]))
            ctx.entails("%s prints for every successful run" % tag, ok, g, str(e["site"]))
            for a in e["args"]:
                try:
                    got += text(I, a)
                except Unreadable as x:
                    raise Unsupported(str(x))
        ctx.entails("%s returns only after a successful run" % tag, I.st.guard if not I.st.dead else FALSE, ok, w)
        for e in I.events:
            if e["kind"] == "panic":
                c = str(e["callee"])
                ctx.ob("%s ends in a panic when it does not return" % tag,
                       not c.startswith(("std::process::", "core::intrinsics::abort", "libc::")), str(e["site"]),
                       "the process ends in %s" % c)
        want = []
        for f, l in LABELS:
            want += [l, ("debug", at(eng, "values", f))]
        want += ["\nResults: ", ("debug", None), "\n"]
        got = joined(got)
        ctx.count("pieces of text printed by %s" % tag, len(got))
        if not ctx.ob("%s prints four series and the results" % tag, len(got) == len(want), w,
                      "prints %s" % short(got, 300)):
            continue
        for k, (a, b) in enumerate(zip(got, want)):
            if isinstance(b, str) or isinstance(a, str):
                ctx.ob("%s prints the label %r" % (tag, str(b).strip()), a == b, w, "prints %s" % short(a, 60))
                continue
            nm = LABELS[k // 2][0] if b[1] is not None else "results"
            if not ctx.ob("%s prints %s in debug form" % (tag, nm), a[0] == "debug", w, "printed as %s" % a[0]):
                continue
            if b[1] is not None:
                ctx.same("%s prints %s under its label" % (tag, nm), a[1], b[1], w, ok)
                continue
            cs = [e for e in I.events if e["kind"] == "call" and e["callee"] == conv]
            ctx.ob("%s derives the results once" % tag, len(cs) == 1, w, "%d conversions" % len(cs))
            for e in cs:
                ctx.same("%s prints the results" % tag, a[1], e["result"], w, ok)
                x = e["args"][0]
                for f in ("components", "state", "values"):
                    ctx.same("%s derives the results from the engine that ran (%s)" % (tag, f),
                             at(x, f), at(eng, f), w, ok)
    shown(ctx)


def reachable(ctx, t, out):
    """the crate's own types a value of type t is made of"""
    t = ctx.p.ty(t) if isinstance(t, int) else t
    if t[0] != "adt":
        return
    if t[1] in ctx.p.adts and (ctx.p.defs.get(t[1]) or {}).get("local"):
        if t[1] in out:
            return
        out.append(t[1])
        for v in ctx.p.adts[t[1]]["variants"]:
            for f in v["fields"]:
                reachable(ctx, f["ty"], out)
    for a in t[2]:
        if isinstance(a, tuple):
            reachable(ctx, a, out)


def shown(ctx):
    """each field of the results is shown under its own name"""
    p = ctx.p
    out = []
    reachable(ctx, ctx.adt_ty("api::RunResults"), out)
    done = {}
    for tr, ims in p.impl_by_trait.items():
        if p.path(tr) != "std::fmt::Debug":
            continue
        for im in ims:
            s = p.ty(im["self"])
            if s[0] == "adt" and s[1] in out:
                done[s[1]] = im
    for a in out:
        nm = p.path(a)
        im = done.get(a)
        if not ctx.ob("%s has a debug form" % nm, im is not None, nm, "no Debug implementation"):
            continue
        if im.get("derived"):
            ctx.ob("%s shows each field under its name" % nm, True, str(im["sp"]), "")
            continue
        d = [it["id"] for it in im["items"] if it["name"] == "fmt"][0]

        def go(I):
            x = I.symbol("x", ctx.adt_ty(nm))
            go.x = x
            return I.freeze(I.call_fn(d, [x, I.symbol("f", p.ty(p.bodies[d]["params"][1]["ty"]))], {}))

        I, v = ctx.analyse(go)
        got = {}
        for e in I.events:
            if e["kind"] == "call" and str(e["path"]).endswith("DebugStruct::<'a, 'b>::field"):
                k = one(e["args"][1])
                got.setdefault(k.s if isinstance(k, StrV) else repr(k), []).append(e["args"][2])
            elif e["kind"] == "call" and "debug_struct" not in e["path"] and not e["path"].endswith("finish"):
                raise Unsupported("debug form built by %s" % e["path"])
        fs = [f["name"] for f in p.adts[a]["variants"][0]["fields"]]
        ctx.ob("%s shows its fields" % nm, sorted(got) == sorted(fs), p.path(d), "shows %s" % sorted(got))
        for f in fs:
            for x in got.get(f, []):
                ctx.same("%s shows %s under its name" % (nm, f), x, at(go.x, f), p.path(d))
