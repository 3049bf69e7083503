"""C18: wire names are unambiguous and error kinds survive the wire."""
import re
from common import *
from rules.dispatch import peel

SER = re.compile(r"_IMPL_SERIALIZE_FOR_(\w+)::\{impl#0\}::serialize$")
DE = re.compile(r"_IMPL_DESERIALIZE_FOR_(\w+)::\{impl#0\}::deserialize::\{impl#0\}::visit_str$")
UNSENT = {("Reply", "Ignore")}     # never sent: C12
KINDS = "src/utils/serializers/error_kind.rs"


def is_ser(c):
    return c.name.startswith("serialize") and not c.local or c.name == "serialize" and "Serialize" in c.trait


def text(v):
    return v.a[0] if v.k == "c" and isinstance(v.a[0], str) else None


def check(ctx):
    ctx.explanation = ("The derived encoders and decoders of every type that crosses the wire are followed: the name an encoder writes for each alternative and field, and "
                       "the alternative or field the decoder takes for that name. Both tables must be inverse to each other, names distinct, tag sets of "
                       "untagged unions disjoint, and no alternative a node may send may be without an encoding. The conversion tables for error kinds are "
                       "read the same way and composed.")
    ctx.rules = ["an alternative is written under one name, and that name is read back as the same alternative", "a field is written under one name, and read back as the same field",
                 "a field that an encoder may leave out is one the decoder can do without",
                 "no two alternatives or fields share a name; alternatives of an untagged union share none", "every alternative a node may send has an encoding",
                 "a kind of i/o error is encoded and decoded to itself, an unknown one to the catch-all", "an i/o error keeps its kind, code and description"]
    de = decoders(ctx)
    enc, kinds = encoders(ctx)
    compare(ctx, enc, kinds, de)
    check_left_out(ctx)
    check_kind_enum(ctx)
    check_kind_functions(ctx)
    check_error_args(ctx)


def check_left_out(ctx):
    """a field that may be left out is one the reader can do without"""
    needed = {}
    n = 0
    for i in ctx.f.raw:
        m = re.search(r"_IMPL_DESERIALIZE_FOR_(\w+)::", i)
        if m:
            for c, t in named(ctx.f.body(i), "missing_field"):
                n += 1
                if not c.get("args", [""])[0].startswith("std::option::Option"):
                    needed.setdefault(owner(i, m), set()).add(t)
    for i in ctx.f.raw:
        m = SER.search(i)
        if m:
            for c, t in named(ctx.f.body(i), "skip_field"):
                ctx.oblige("a field that is left out may be missing", t not in needed.get(owner(i, m), ()), "left-out:%s.%s" % (m.group(1), t),
                           "%s may be sent without its '%s', and is not accepted without it" % (m.group(1), t), ctx.f.body(i).span)
    ctx.count("fields a reader looks for", n, 60)


def named(b, name):
    """calls of that name with the literal they are given"""
    for bb in b.blocks if b is not None else ():
        t = bb["t"]
        if t["t"] == "call" and t["f"]["k"] == "fn" and t["f"]["f"]["name"] == name:
            for o in t["a"]:
                if "s" in o:
                    yield t["f"]["f"], o["s"]


def adt_of(ctx, b):
    for a in ctx.f.adts.values():
        if a.path == strip_generics(b.self_ty) or path_match(a.path, b.self_ty.replace("over_there::", "")):
            return a
    return None


def decoders(ctx):
    """type -> {name: index of what is taken for it}"""
    out = {}
    for i in ctx.f.raw:
        m = DE.search(i)
        if not m:
            continue
        b = ctx.f.body(i)
        names = {}

        def on_ret(eng, st, hist, val, names=names):
            if not (val.k == "agg" and val.a[1] == "Ok"):
                return
            x = dict(val.a[2])["0"]
            k = re.match(r"__field(\d+)$", x.a[1]) if x.k == "agg" else None
            if k:
                for t, r in st.ref.items():
                    if r == ("is", True) and tail(t) == "eq":
                        for y in args_of(t):
                            if text(y) is not None:
                                names.setdefault(text(y), int(k.group(1)))
        ctx.run(Trace(want=lambda c: False, on_ret=on_ret), b)
        out[owner(i, m)] = names
    ctx.count("decoders", len(out), 40)
    return out


def owner(i, m):
    return strip_crate(i[:m.start()]) + m.group(1)


def strip_crate(p):
    return p.split("::", 1)[1] if "::" in p else p


def encoders(ctx):
    """type -> {alternative or field: names written for it}"""
    out, kinds = {}, {}
    for i in ctx.f.raw:
        m = SER.search(i)
        if not m:
            continue
        b = ctx.f.body(i)
        key = owner(i, m)
        t = {"alts": {}, "fields": {}, "silent": set(), "tags": {}, "union": {}, "payload": {}}
        selfv = mk("param", b.locals[1][1] or "self")

        def alt(st, selfv=selfv):
            r = st.ref.get(selfv)
            return r[1] if r is not None and r[0] == "is" else None

        def on_event(eng, st, hist, ev, t=t, selfv=selfv):
            if ev.kind != "call":
                return
            a = alt(st)
            strs = [text(x) for x in ev.terms]
            if ev.name in ("serialize_unit_variant", "serialize_newtype_variant", "serialize_tuple_variant", "serialize_struct_variant"):
                t["alts"].setdefault(a, set()).add(strs[3])
            elif ev.name == "serialize_tagged_newtype":
                t["alts"].setdefault(a, set()).add(strs[4])
                t["tags"][a] = strs[3]
                t["payload"][a] = ev.types[5].lstrip("&")
            elif ev.name == "serialize_field":
                if a is not None:
                    if len(ev.terms) > 2 and text(ev.terms[2]) is not None and strs[1] is not None and not contains(ev.terms[2], lambda x: x is selfv):
                        t["alts"].setdefault(a, set()).add(strs[2])
                        t["tags"][a] = strs[1]
                else:
                    v = peel(ev.terms[2]) if len(ev.terms) > 2 else None
                    src = sorted({x.a[1][1:] for x in subterms(v) if x.k == "proj" and x.a[0] is selfv}) if v is not None else []
                    for f in src:
                        t["fields"].setdefault(f, set()).add(strs[1])
            elif ev.name == "serialize":
                v = peel(ev.terms[0])
                if v.k == "proj" and v.a[0].k == "proj" and v.a[0].a[0] is selfv and v.a[0].a[1].startswith("@"):
                    t["union"][v.a[0].a[1][1:]] = ev.types[0].lstrip("&")

        def on_ret(eng, st, hist, val, t=t):
            if val.k == "agg" and val.a[1] == "Err" and not [e for e in hist if e.kind == "call"]:
                t["silent"].add(alt(st))
        r = Trace(want=is_ser, on_event=on_event, on_ret=on_ret, relevant=is_ser, wantbranch=lambda x: False)
        r.keep_all_refinements = True
        ctx.run(r, b)
        out[key] = t
        kinds[key] = b
    ctx.count("encoders", len(out), 40)
    return out, kinds


def compare(ctx, enc, bodies, de):
    n = {"alts": 0, "fields": 0}
    for key, t in sorted(enc.items()):
        b = bodies[key]
        short = key.rsplit("::", 1)[-1]
        adt = adt_of(ctx, b)
        names = de.get(key)
        if adt is None or names is None:
            if t["union"]:
                union(ctx, short, t, de, enc)
            continue
        for a in t["silent"]:
            if (short, a) not in UNSENT:
                ctx.oblige("every alternative a node may send has an encoding", False, "silent:%s::%s" % (short, a), "%s::%s cannot be sent" % (short, a), b.span)
        if adt.is_enum:
            order = [v[0] for v in adt.variants]
            seen = {}
            for a in order:
                ns = t["alts"].get(a)
                if not ns:
                    if a not in t["silent"] and t["alts"]:
                        ctx.violation("unwritten:%s::%s" % (short, a), "no name is written for %s::%s" % (short, a), b.span)
                    continue
                n["alts"] += 1
                for s in ns:
                    k = names.get(s)
                    back = order[k] if k is not None and k < len(order) else None
                    ctx.oblige("an alternative is read back as itself", back == a and len(ns) == 1, "name:%s::%s" % (short, a),
                               "%s::%s is written as '%s', which is read back as %s" % (short, a, s, back or "nothing"), b.span)
                    ctx.oblige("alternatives share no name", s not in seen, "shared:%s:%s" % (short, s), "%s::%s and %s::%s are both written as '%s'" % (short, seen.get(s), short, a, s),
                               b.span)
                    seen[s] = a
            tags = set(t["tags"].values())
            ctx.oblige("one tag per type", len(tags) <= 1, "tag:" + short, "the alternatives of %s are tagged by different fields" % short, b.span)
            for a, ty in t["payload"].items():
                inner = [k for k in enc if path_match(ty, k) or ty.endswith("::" + k.rsplit("::", 1)[-1]) and k.rsplit("::", 1)[0].split("::_IMPL")[0] in ty or k == ty]
                for k in inner:
                    fs = {s for x in enc[k]["fields"].values() for s in x}
                    ctx.oblige("a tag is not also a field", not (fs & tags), "tagfield:%s::%s" % (short, a), "%s::%s has a field named like the tag" % (short, a), b.span)
        else:
            order = [f[0] if isinstance(f, (list, tuple)) else f for f in adt.variants[0][2]] if adt.variants else []
            if not t["fields"]:
                continue
            seen = {}
            for f in order:
                ns = t["fields"].get(f)
                if not ns:
                    ctx.violation("unwritten:%s.%s" % (short, f), "%s.%s is not sent" % (short, f), b.span)
                    continue
                n["fields"] += 1
                for s in ns:
                    k = names.get(s)
                    back = order[k] if k is not None and k < len(order) else None
                    ctx.oblige("a field is read back as itself", back == f and len(ns) == 1, "name:%s.%s" % (short, f),
                               "%s.%s is written as '%s', which is read back as %s" % (short, f, s, back or "nothing"), b.span)
                    ctx.oblige("fields share no name", s not in seen, "shared:%s:%s" % (short, s), "%s.%s and %s.%s are both written as '%s'" % (short, seen.get(s), short, f, s), b.span)
                    seen[s] = f
    ctx.count("alternatives compared", n["alts"], 60)
    ctx.count("fields compared", n["fields"], 60)


def union(ctx, short, t, de, enc):
    """an untagged union: what is written for one alternative must not be readable as another"""
    sets = {}
    for a, ty in t["union"].items():
        k = [x for x in enc if x.rsplit("::", 1)[-1] == ty.rsplit("::", 1)[-1] and enc[x]["alts"] and strip_module(x) in ty]
        if not k:
            note(ctx, "union %s: the names of %s are not known" % (short, ty))
            continue
        sets[a] = {s for x in enc[k[0]]["alts"].values() for s in x} | set(de.get(k[0], ()))
    al = sorted(sets)
    ctx.count("alternatives of an untagged union", len(al), 2)
    for i, a in enumerate(al):
        for c in al[i + 1:]:
            both = sorted(sets[a] & sets[c])
            ctx.oblige("alternatives of an untagged union share no name", not both, "union:%s:%s" % (short, ",".join(both)),
                       "%s::%s and %s::%s share %s" % (short, a, short, c, ", ".join(both)))


def strip_module(x):
    return x.split("::_IMPL")[0]


# ---------------------------------------------------------------- error kinds
def table_of(ctx, b, what):
    """input alternative -> output alternative; None for everything not named"""
    out = {}
    p = mk("param", b.locals[1][1] or "arg1")

    def on_ret(eng, st, hist, val):
        r = st.ref.get(p)
        if val.k != "agg" or not val.a[1]:
            eng.report("table:" + what, "%s does not give one kind" % what, st)
        elif r is not None and r[0] == "is":
            out[r[1]] = val.a[1]
        else:
            out[None] = val.a[1]
            for x in (r[1] if r is not None else ()):
                out.setdefault(x, out.get(x))
    r = Trace(want=lambda c: False, on_ret=on_ret, wantbranch=lambda x: False)
    r.keep_all_refinements = True
    ctx.run(r, b, {1: p}, what=what)
    return {k: v for k, v in out.items() if v is not None}


def is_kind(ty):
    return ty.endswith("ErrorKind") and not ty.endswith("SerErrorKind")


def check_kind_enum(ctx):
    to = [b for b in ctx.f.local_bodies() if b.name in ("from", "into") and b.argc == 1 and is_kind(b.locals[1][0]) and b.locals[0][0].endswith("SerErrorKind")]
    fro = [b for b in ctx.f.local_bodies() if b.name in ("from", "into") and b.argc == 1 and is_kind(b.locals[0][0]) and b.locals[1][0].endswith("SerErrorKind")]
    ctx.anchor(to, "the conversion of an error kind for the wire")
    ctx.anchor(fro, "the conversion of an error kind from the wire")
    for b1 in to:
        for b2 in fro:
            t1, t2 = table_of(ctx, b1, "kind to wire"), table_of(ctx, b2, "kind from wire")
            inverse(ctx, "SerErrorKind", t1, t2)


def inverse(ctx, what, t1, t2):
    n = 0
    back = lambda s: t2.get(s, t2.get(None))
    for k, s in sorted(t1.items(), key=str):
        want = k if k is not None else "Other"
        n += k is not None
        ctx.oblige("a kind decodes to itself", back(s) == want, "kind:%s:%s" % (what, k or "unknown"), "%s kind %s crosses the wire as %s and comes back as %s" % (
            what, k or "an unknown", s, back(s)))
    for s, k in sorted(t2.items(), key=str):
        if k not in t1 and k is not None:
            ctx.oblige("a kind decodes to itself", False, "kind:%s:%s" % (what, k), "%s: %s is decoded but never encoded" % (what, k))
    ctx.count("error kinds (%s)" % what, n, 18)


def check_kind_functions(ctx):
    """the stand-alone encoder and decoder of error kinds"""
    sers = [b for b in ctx.f.local_bodies() if b.name == "serialize" and b.file() == KINDS]
    if not ctx.anchor(sers, "the encoder of error kinds (%s)" % KINDS):
        return
    enc = {}
    for b in sers:
        p = mk("param", "kind")

        def on_event(eng, st, hist, ev):
            if ev.kind == "call" and ev.name == "serialize_unit_variant":
                r = st.ref.get(p)
                k = r[1] if r is not None and r[0] == "is" else None
                enc.setdefault(k, set()).add((ev.terms[2].a[0] if ev.terms[2].k == "c" else None, text(ev.terms[3])))
        r = Trace(want=is_ser, on_event=on_event, relevant=is_ser, wantbranch=lambda x: False)
        r.keep_all_refinements = True
        ctx.run(r, b, {1: p}, what="error kind encoder")
    dec = {"visit_u64": {}, "visit_str": {}, "visit_bytes": {}}
    kinds = {}
    for b in ctx.f.local_bodies():
        if b.file() != KINDS:
            continue
        if b.name in dec:
            def on_ret(eng, st, hist, val, d=dec[b.name], b=b):
                if not (val.k == "agg" and val.a[1] == "Ok"):
                    return
                x = dict(val.a[2])["0"]
                v = mk("param", b.locals[2][1] or "value")
                r = st.ref.get(v)
                if r is not None and r[0] == "is" and x.k == "agg":
                    d[r[1]] = x.a[1]
                for t, rr in st.ref.items():
                    if rr == ("is", True) and tail(t) == "eq" and x.k == "agg":
                        for y in args_of(t):
                            if y.k == "c":
                                s = y.a[0]
                                d["".join(map(chr, s)) if isinstance(s, tuple) else s] = x.a[1]
            r = Trace(want=lambda c: False, on_ret=on_ret, wantbranch=lambda x: False)
            r.keep_all_refinements = True
            ctx.run(r, b, what="error kind " + b.name)
        elif b.name == "visit_enum":
            def on_ret2(eng, st, hist, val):
                if not (val.k == "agg" and val.a[1] == "Ok"):
                    return
                x = dict(val.a[2])["0"]
                f = [r[1] for t, r in st.ref.items() if r[0] == "is" and isinstance(r[1], str) and r[1] not in ("Ok", "Err")]
                if len(f) == 1 and x.k == "agg":
                    kinds[f[0]] = x.a[1]
            r = Trace(want=lambda c: False, on_ret=on_ret2, wantbranch=lambda x: False)
            r.keep_all_refinements = True
            ctx.run(r, b, what="error kind visit_enum")
    n = 0
    for k, ns in sorted(enc.items(), key=str):
        want = k or "Other"
        for idx, name in ns:
            n += 1
            for how, key in (("visit_u64", idx), ("visit_str", name), ("visit_bytes", name)):
                d = dec[how]
                if not d:
                    if how != "visit_bytes":
                        note(ctx, "error kinds: %s not understood" % how)
                    continue
                got = kinds.get(d.get(key))
                ctx.oblige("a kind decodes to itself", got == want, "kind:%s:%s" % (how, k or "unknown"), "%s is encoded as %s/'%s', which %s decodes to %s" % (
                    k or "an unknown kind", idx, name, how, got or "nothing"))
    ctx.count("error kinds encoded", n, 18)
    ctx.count("error kinds decoded by name", len(dec["visit_str"]), 18)
    ctx.count("error kinds decoded by number", len(dec["visit_u64"]), 18)


def converts_kind(c):
    return c.name in ("from", "into") and any("ErrorKind" in str(x) for x in (c.from_tys, c.self_adt, c.path, c.args))


def note(ctx, s):
    ctx.assumptions.append(s)


def check_error_args(ctx):
    """an i/o error keeps its kind, code and description on the way"""
    n = 0
    for b in ctx.f.local_bodies():
        if b.argc != 1 or b.name not in ("from", "into"):
            continue
        src, dst = b.locals[1][0].lstrip("&"), b.locals[0][0]
        tosend = src.endswith("io::Error") and dst.rsplit("::", 1)[-1] in ("IoErrorArgs", "SerIoError")
        back = dst.endswith("io::Error") and src.rsplit("::", 1)[-1] in ("IoErrorArgs", "SerIoError")
        if not (tosend or back):
            continue
        n += 1
        who = (dst if tosend else src).rsplit("::", 1)[-1]
        x = mk("param", "the error")

        def from_error(v, *names):
            return contains(v, lambda y: y.k in ("call", "pure") and tail(y) in names and contains(y, lambda z: z is x))

        def on_ret(eng, st, hist, val, who=who):
            if val.k != "agg":
                if not (val.k in ("call", "pure") and tail(val) in ("from", "into") and peel(val) is x):
                    eng.report("error:%s" % who, "what becomes of an i/o error in %s cannot be told" % who, st)
                return
            f = dict(val.a[2])
            if not from_error(f.get("error_kind", val), "kind"):
                eng.report("error:%s:kind" % who, "%s does not keep the kind of an i/o error" % who, st)
            c = f.get("os_code", val)
            raw = [t for t, r in st.ref.items() if tail(t) == "raw_os_error"]
            same = tail(c) == "raw_os_error" and from_error(c, "raw_os_error")
            rebuilt = c.k == "agg" and any(same_value(c, t, st) or c.a[1] == "None" and st.ref.get(t) == ("is", "None") for t in raw)
            if not (same or rebuilt):
                eng.report("error:%s:code" % who, "%s does not keep the code of an i/o error" % who, st)
            if not contains(f.get("description", val), lambda z: z is x):
                eng.report("error:%s:description" % who, "%s does not keep the description of an i/o error" % who, st)

        def on_back(eng, st, hist, val, who=who):
            code = mk("proj", x, ".os_code")
            r = st.ref.get(code)
            if val.k in ("call", "pure") and tail(val) == "from_raw_os_error":
                if r != ("is", "Some") or peel(args_of(val)[0]) is not mk("proj", mk("proj", code, "@Some"), ".0"):
                    eng.report("error:%s:back" % who, "%s gives an error a code it was not sent with" % who, st)
            elif val.k in ("call", "pure") and tail(val) in ("new", "from"):
                if r == ("is", "Some") or r is None:
                    eng.report("error:%s:back" % who, "%s drops the code of an i/o error" % who, st)
                a = args_of(val)
                if not contains(a[0], lambda z: z is mk("proj", x, ".error_kind")):
                    eng.report("error:%s:back" % who, "%s drops the kind of an i/o error" % who, st)
                if len(a) < 2 or not contains(a[1], lambda z: z is mk("proj", x, ".description")):
                    eng.report("error:%s:back" % who, "%s drops the description of an i/o error" % who, st)
            else:
                eng.report("error:%s:back" % who, "the i/o error %s becomes cannot be told" % who, st)
        r = Trace(want=lambda c: False, on_ret=on_ret if tosend else on_back, wantbranch=lambda t: False,
                  opaque=converts_kind)
        r.keep_all_refinements = True
        ctx.run(r, b, {1: x}, what=who)
    ctx.count("conversions of i/o errors", n, 4)
