"""C02: what is signed is what is verified, and it is the whole packet."""
from common import *

META, DATA = mk("param", "META"), mk("param", "DATA")
JOIN = {"concat", "join", "chain"}
PASS = {"collect", "iter", "into_iter", "copied", "cloned", "to_vec", "as_slice", "into_boxed_slice", "into_vec", "from", "into",
        "into_inner", "freeze", "flatten", "to_owned", "extend_one", "from_iter", "as_ref", "shrink_to_fit", "reserve"}
EMPTY = {"new", "with_capacity", "default"}
APPEND = {"extend_from_slice", "extend", "append", "put_slice", "put", "write_all", "push", "push_back"}


def last(n):
    return n.rsplit("::", 1)[-1]


def parts(v):
    """the sequence of pieces a byte string is put together from"""
    if v.k == "agg" and v.a[0] in ("array", "()", "tuple"):
        return sum((parts(x) for _, x in v.a[2]), [])
    if v.k in ("call", "pure"):
        nm = last(v.a[0])
        args = v.a[2] if v.k == "call" else v.a[1]
        if nm in JOIN or nm in PASS:
            return sum((parts(x) for x in args if not (x.k == "fn")), [])
        if nm == "with_capacity" or nm in EMPTY and not any(contains(x, lambda y: y in (META, DATA)) for x in args):
            return []
    if v.k == "mut":
        nm = last(v.a[0])
        if nm in APPEND or nm == "loopacc":
            return sum((parts(x) for x in v.a[3]), [])
        if nm in PASS:
            return parts(v.a[3][0])
    if v.k == "repeat":
        return [v]
    return [v]


def normal(content, metas, datas):
    def fn(x):
        if x in metas:
            return META
        if x in datas:
            return DATA
        return None
    return tuple(unsite(p) for p in parts(subst(content, fn)))


def unsite(v):
    """call results without the place of the call"""
    def fn(x):
        if x.k == "call":
            return mk("pure", x.a[0], tuple(unsite(y) for y in x.a[2]))
        return None
    return subst(v, fn)


def full_parts(p, x):
    return any(x is y or whole(y, x) for y in p)


def judge(eng, st, span, who, ps, key):
    if not full_parts(ps, META):
        eng.report("%s:metadata" % key, "%s does not cover all of the packet's metadata" % who, st, span)
    if not full_parts(ps, DATA):
        eng.report("%s:data" % key, "%s does not cover all of the packet's data" % who, st, span)


def packets_in(v):
    return [x for x in subterms(v) if x.k == "agg" and path_match(x.a[0], "Packet") and len(x.a[2]) >= 3]


def is_sign(c):
    return c.name == "sign" and path_match(strip_generics(c.trait), "Signer")


def is_verify(c):
    return c.name == "verify" and path_match(strip_generics(c.trait), "Verifier")


def sign_side(ctx):
    f = ctx.f
    forms = set()
    n = {"packets": 0}
    isnum = lambda c: c.local and f.body(c.rid) is not None and ret_is_number(f.body(c.rid))
    for b in ctx.anchor(f.fns("encode", self_adt="Encoder"), "Encoder::encode"):
        def on_event(eng, st, hist, ev):
            if ev.kind != "call":
                return
            for t in ev.terms:
                if t.k == "agg" and path_match(t.a[0], "Packet"):
                    check_packet(eng, st, t, ev.span)

        def check_packet(eng, st, p, span):
            m, d, s = (field(p, x) for x in ("metadata", "data", "signature"))
            n["packets"] += 1
            sigs = [x for x in subterms(s) if x.k == "call" and x.a[0].endswith("Signer::sign")]
            if s.k != "call" or not sigs or sigs[0] is not s:
                eng.report("sign:unsigned", "a packet is produced whose signature is not what the signer returned", st, span)
                return
            ps = normal(sigs[0].a[2][1], (m,), (d,))
            if any(contains(x, lambda y: y.k == "top") for x in ps):
                return
            forms.add(ps)
            judge(eng, st, span, "the signature of a packet", ps, "sign")

        def on_ret(eng, st, hist, val):
            if is_variant(val, "Ok"):
                for p in packets_in(val):
                    check_packet(eng, st, p, "")
        r = Trace(want=lambda c: is_sign(c) or c.name in ("push", "push_back", "insert", "extend"), on_event=on_event, on_ret=on_ret, opaque=isnum,
                  relevant=lambda c: is_sign(c) or c.name in ("push", "content_for_signature"), wantbranch=lambda x: False, max_states=150000)
        r.max_hist = 1
        ctx.run(r, b)
    ctx.count("signed packets", n["packets"], 2)
    return forms


def verify_side(ctx):
    f = ctx.f
    forms = set()
    n = {"verify": 0}
    for b in ctx.anchor(f.fns("process", self_adt="InputProcessor"), "InputProcessor::process"):
        def on_event(eng, st, hist, ev):
            if ev.kind != "call" or not is_verify(_C(ev)):
                return
            n["verify"] += 1
            sig = ev.terms[2]
            if not (sig.k == "proj" and sig.a[1] == ".signature"):
                eng.report("verify:signature", "what is verified is not the signature of the packet", st, ev.span)
                return
            p = sig.a[0]
            ps = normal(ev.terms[1], (mk("proj", p, ".metadata"),), (mk("proj", p, ".data"),))
            if any(contains(x, lambda y: y.k == "top") for x in ps):
                return
            forms.add(ps)
            judge(eng, st, ev.span, "the verification of a packet", ps, "verify")
        r = Trace(want=is_verify, on_event=on_event, relevant=is_verify, wantbranch=lambda x: False)
        r.max_hist = 1
        ctx.run(r, b)
    ctx.count("verified packets", n["verify"], 1)
    return forms


class _C:
    def __init__(self, ev):
        self.name, self.trait = ev.name, ev.trait


SERIALIZED = ("Metadata", "PacketType", "PacketEncryption", "Nonce", "Packet")


def check_serialize(ctx):
    """the serialised form of the metadata covers every field of it"""
    f = ctx.f
    for name in SERIALIZED:
        adts = [a for a in f.adts.values() if path_match(strip_generics(a.path), name) and "transport" in a.path]
        if not ctx.anchor(adts, "type " + name):
            continue
        adt = adts[0]
        bodies = [b for b in f.local_bodies(derived=True) if b.kind == "fn" and b.name == "serialize"
                  and strip_generics(b.self_adt or "") == strip_generics(adt.path)]
        if not ctx.anchor(bodies, "Serialize for " + name):
            continue
        covered = set()

        def on_event(eng, st, hist, ev):
            if ev.kind != "call":
                return
            for t in ev.terms:
                for x in subterms(t):
                    if x.k == "proj" and x.a[1].startswith("."):
                        root, steps = fields_of(x)
                        if root is param("self"):
                            vs = [s[1:] for s in steps if s[0] == "@"]
                            fs = [s[1:] for s in steps if s[0] == "."]
                            if fs:
                                covered.add((vs[0] if vs else "", fs[0]))
                    elif x is param("self") and len(ev.terms) == 2 and t is x:
                        covered.add("*")
        r = Trace(want=lambda c: c.name.startswith("serialize") or c.name == "collect_str", on_event=on_event,
                  wantbranch=lambda x: False)
        r.max_hist = 1
        ctx.run(r, bodies[0])
        for vn, fields in adt_fields(adt):
            for fn in fields:
                ok = "*" in covered or ((vn if adt_is_enum(adt) else ""), fn) in covered
                ctx.oblige("%s%s.%s is serialised" % (name, "::" + vn if adt_is_enum(adt) else "", fn), ok,
                           "serialize:%s:%s:%s" % (name, vn, fn),
                           "field %s of %s is not part of its serialised form, so no signature covers it" % (fn, name), bodies[0].span)


def adt_is_enum(a):
    return a.is_enum


def adt_fields(a):
    for name, _, fields in a.variants:
        yield name, [x if isinstance(x, str) else (x["name"] if isinstance(x, dict) else x[0]) for x in fields]


def check_signers(ctx):
    f = ctx.f
    impls = f.fns("sign", trait="Signer")
    ctx.count("implementations of Signer", len(impls), 3)
    for b in impls:
        who = (b.self_adt or b.self_ty).rsplit("::", 1)[-1]
        if who == "NoopAuthenticator":
            continue
        msg = param(b.locals[2][1] or "arg2")

        def on_ret(eng, st, hist, val, who=who, msg=msg):
            if not whole(val, msg):
                eng.report("%s:message" % who, "the signature made by %s does not cover the whole message" % who, st)
            elif not contains(val, lambda x: x.k == "proj" and fields_of(x)[0] is param("self")):
                eng.report("%s:key" % who, "the signature made by %s does not depend on its key or signer" % who, st)
        r = Trace(want=lambda c: False, on_ret=on_ret)
        ctx.run(r, b)
        ctx.oblige("%s::sign covers the whole message under its own key" % who, True)


def check(ctx):
    ctx.explanation = ("The byte string handed to Signer::sign for every packet the encoder can produce, and to Verifier::verify for every "
                       "packet received, is reconstructed as a sequence of pieces over the packet's metadata and data (concatenation, appends and "
                       "iterators flattened). Both must be the same sequence, contain metadata and data without any narrowing step, and the derived "
                       "serialisation of the metadata must visit every field of every type it is made of.")
    ctx.rules = ["signed content = verified content", "content covers metadata and data whole", "serialised form covers every field",
                 "signers sign the whole message"]
    a = sign_side(ctx)
    b = verify_side(ctx)
    if a and b:
        ctx.oblige("every signed form equals every verified form", len(a | b) == 1, "forms-differ",
                   "the content signed (%s) and the content verified (%s) differ" % ("; ".join(map(str, a)), "; ".join(map(str, b))))
    check_serialize(ctx)
    check_signers(ctx)
