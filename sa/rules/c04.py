"""C04: nonces are fresh, random, of the right size, checked, and travel with the message."""
import re

from common import *
from rules.c02 import packets_in

BITS = {"Nonce96Bits": 12, "Nonce128Bits": 16}
RANDOM = ("rand::", "getrandom::", "rand_core::")


def is_encode(c):
    return c.name == "encode" and path_match(c.self_adt, "Encoder")


def new_ad(x):
    return x.k == "call" and x.a[0] == "Encrypter::new_encrypt_associated_data"


def check_output(ctx):
    f = ctx.f
    n = {"encrypt": 0, "encode": 0}
    for b in ctx.anchor(f.fns("process", self_adt="OutputProcessor"), "OutputProcessor::process"):
        def on_event(eng, st, hist, ev):
            if ev.kind != "call":
                return
            if ev.name == "encrypt":
                n["encrypt"] += 1
                ad = ev.terms[2]
                if not new_ad(ad):
                    eng.report("encrypt-ad", "a message is encrypted under associated data that was not newly requested for it", st, ev.span)
                elif path_of(ad.a[2][0]) != path_of(ev.terms[0]):
                    eng.report("encrypt-ad-of", "the associated data was requested from another encrypter", st, ev.span)
                elif not any(e.kind == "call" and e.res is ad for e in hist):
                    eng.report("encrypt-ad-old", "the associated data was not requested during this call", st, ev.span)
            if ev.name == "encode":
                n["encode"] += 1
                ads = [e.terms[2] for e in hist if e.kind == "call" and e.name == "encrypt"]
                a = ev.terms[1] if len(ev.terms) > 1 else ev.terms[0]
                enc = field(a, "encryption")
                if not ads:
                    eng.report("encode-before", "packets are made before the message is encrypted", st, ev.span)
                    return
                ad = ads[-1]
                kn = st.ref.get(ad)
                if is_variant(enc, "EncryptedWithNonce"):
                    nn = field(enc, "nonce")
                    if not (nn.k == "proj" and contains(nn, lambda x: x is ad)):
                        eng.report("travel-nonce", "the nonce that travels with a message is not the one it was encrypted with", st, ev.span)
                elif enc.k == "agg":
                    if kn is None or kn[0] != "is" or kn[1] != "None":
                        eng.report("travel-lost", "the nonce a message is encrypted with does not travel with it", st, ev.span)
                elif not contains(enc, lambda x: x is ad):
                    eng.report("travel-other", "the encryption details that travel with a message are not those used", st, ev.span)
        r = Trace(want=lambda c: is_encode(c) or path_match(strip_generics(c.trait), "Encrypter"), on_event=on_event, opaque=is_encode,
                  wantbranch=lambda x: False)
        r.max_hist = 8
        r.keep_all_refinements = True
        ctx.run(r, b)
    ctx.count("encryptions", n["encrypt"], 1)
    ctx.count("packetisations", n["encode"], 1)
    # the final packet carries what the encoder was given
    m = {"final": 0}
    isnum = lambda c: c.local and f.body(c.rid) is not None and ret_is_number(f.body(c.rid))
    for b in ctx.anchor(f.fns("encode", self_adt="Encoder"), "Encoder::encode"):
        info = param(b.locals[2][1] or "arg2")
        given = mk("proj", info, ".encryption")

        def on_event2(eng, st, hist, ev):
            for t in ev.terms:
                if t.k == "agg" and path_match(t.a[0], "Packet"):
                    ty = field(field(t, "metadata"), "type")
                    if is_variant(ty, "Final"):
                        m["final"] += 1
                        if field(ty, "encryption") is not given:
                            eng.report("final-encryption", "the final packet does not carry the encryption details of its message", st, ev.span)
        r = Trace(want=lambda c: c.name in ("push", "push_back", "insert", "extend"), on_event=on_event2, opaque=isnum,
                  relevant=lambda c: c.name in ("push",), wantbranch=lambda x: False, max_states=150000)
        r.max_hist = 1
        ctx.run(r, b)
    ctx.counts["final packets"] = m["final"]


def check_input(ctx):
    f = ctx.f
    n = {"decrypt": 0, "nonce": 0}
    for b in ctx.anchor(f.fns("process", self_adt="InputProcessor"), "InputProcessor::process"):
        data = param(b.locals[2][1] or "arg2")

        def is_stored(x):
            # a packet taken out of the decoder's own state
            return contains(x, lambda y: y.k == "proj" and fields_of(y)[0] is param("self"))

        def on_event(eng, st, hist, ev):
            if ev.kind != "call" or ev.name != "decrypt":
                return
            n["decrypt"] += 1
            ad = ev.terms[2]
            if is_variant(ad, "None"):
                # only when the stored final packet has no nonce
                bad = not any(v[0] == "is" and v[1] not in ("Nonce", True) and contains(k, lambda x: is_nonce_source(x)) for k, v in st.ref.items())
                if bad and not contains_enc(st):
                    eng.report("decrypt-none", "a message is decrypted without the nonce of its final packet", st, ev.span)
                return
            n["nonce"] += 1
            if ad.k == "agg" and ad.a[1] == "Nonce":
                nn = field(ad, "0")
            else:
                nn = ad
            fresh = [x for x in subterms(nn) if x.k == "call" and x.a[0].endswith("from_slice") and derives(x, data)]
            ptr = nonce_packet(nn)
            if ptr is None:
                eng.report("decrypt-nonce", "the nonce a message is decrypted with is not one that travelled with it", st, ev.span)
            elif ptr in fresh or (ptr.k == "proj" and ptr.a[0] in fresh):
                # the packet received last: only right where it is known to be the final one
                if not final_known(st, ptr):
                    eng.report("decrypt-last", "a message is decrypted with the nonce of the packet that arrived last, not of its final packet",
                               st, ev.span)
            elif not is_stored(ptr):
                eng.report("decrypt-foreign", "the nonce a message is decrypted with does not come from its packets", st, ev.span)
        r = Trace(want=lambda c: c.name == "decrypt" and path_match(strip_generics(c.trait), "Decrypter"), on_event=on_event,
                  relevant=lambda c: c.name == "decrypt" and path_match(strip_generics(c.trait), "Decrypter"), wantbranch=lambda x: False)
        r.max_hist = 1
        r.keep_all_refinements = True
        ctx.run(r, b)
    ctx.count("decryptions", n["decrypt"], 1)
    ctx.count("decryptions with a nonce", n["nonce"], 1)


def is_nonce_source(x):
    return x.k == "proj" and x.a[1] in (".encryption", ".type") or x.k in ("call", "pure") and (
        x.a[0].endswith("::get") or x.a[0].endswith("nonce") or x.a[0].endswith("find") or x.a[0].endswith("find_map"))


def contains_enc(st):
    return False


def nonce_packet(nn):
    """the packet whose metadata the nonce is a part of"""
    v = nn
    if v.k in ("call", "pure"):
        return v
    while v.k == "proj":
        if v.a[1] == ".metadata":
            return v.a[0]
        v = v.a[0]
    if nn.k == "proj" and v.k in ("call", "pure"):
        return v
    return None


def final_known(st, p):
    for k, v in st.ref.items():
        if contains(k, lambda x: x is p):
            if v == ("is", "Final") or (v == ("is", True) and contains(k, lambda x: x.k in ("call", "pure") and x.a[0].endswith("is_final"))):
                return True
    return False


def check_ciphers(ctx):
    f = ctx.f
    nimpl = nfresh = 0
    sizes = {}
    # an encrypter that has another one encrypt for it takes the nonce from there too
    wraps = {strip_generics(b.self_adt or b.self_ty).rsplit("::", 1)[-1] for b in f.fns("encrypt", trait="Encrypter")
             for c in calls_of(b) if c["name"] == "encrypt" and c.get("trait", "").endswith("Encrypter")}
    for b in f.fns("new_encrypt_associated_data", trait="Encrypter"):
        who = strip_generics(b.self_adt or b.self_ty).rsplit("::", 1)[-1]
        nimpl += 1
        args = {"self": built(ctx, b.self_adt)} if built(ctx, b.self_adt) is not None else None
        got = {"v": set(), "random": 0}

        def on_ret(eng, st, hist, val, who=who, got=got):
            if is_variant(val, "None"):
                if who in wraps:
                    eng.report("fresh:%s" % who, "%s hands out no nonce although the encrypter it wraps may need one" % who, st)
                got["v"].add(None)
                return
            if val.k == "call" and val.a[0] == "Encrypter::new_encrypt_associated_data":
                if path_of(val.a[2][0])[0] is not param("self"):
                    eng.report("fresh:%s" % who, "%s takes its nonce from elsewhere than the encrypter it wraps" % who, st)
                got["v"].add("inner")
                return
            nn = field(val, "0") if is_variant(val, "Nonce") else None
            if nn is None or not (nn.k == "agg" and nn.a[1] in BITS):
                eng.report("fresh:%s" % who, "%s does not hand out a nonce of known size" % who, st)
                return
            got["v"].add(nn.a[1])
            body = field(nn, "0")
            if not random_whole(body):
                eng.report("random:%s" % who, "the nonce handed out by %s is not drawn whole from a random number generator" % who, st)
            else:
                got["random"] += 1
        r = Trace(want=lambda c: False, on_ret=on_ret)
        ctx.run(r, b, args, what="%s::new_encrypt_associated_data" % who)
        if got["random"]:
            nfresh += 1
            if len(got["v"]) == 1:
                sizes[who] = BITS[list(got["v"])[0]]
    ctx.count("implementations of Encrypter", nimpl, 4)
    ctx.count("ciphers with random nonces", nfresh, 4)
    for trait, fn in (("Encrypter", "encrypt"), ("Decrypter", "decrypt")):
        ng = 0
        for b in f.fns(fn, trait=trait):
            who = strip_generics(b.self_adt or b.self_ty).rsplit("::", 1)[-1]
            if who not in sizes:
                continue
            ng += check_guard(ctx, b, who, fn, sizes[who])
        ctx.count("guarded uses of a cipher to %s" % fn, ng, 4)


_built = {}


def built(ctx, adt):
    """what the constructor of a cipher makes, in terms of its key"""
    if not adt:
        return None
    key = (id(ctx.f), adt)
    if key not in _built:
        out = []
        for b in ctx.f.fns("new", self_adt=strip_generics(adt)):
            r = Trace(want=lambda c: False, on_ret=lambda e, s, h, v: out.append(v))
            Engine(ctx.f, r, b).run()
        vals = [v for v in out if v.k == "agg" and path_match(strip_generics(v.a[0]), strip_generics(adt))]
        # only ciphers that fix their nonce size when they are made
        vals = [v for v in vals if not any(derives(x, param("bicrypter")) for _, x in v.a[2])]
        _built[key] = vals[0] if len(set(vals)) == 1 and any("once" in n for n, _ in vals[0].a[2]) else None
    return _built[key]


SEEDED = ("seed_from_u64", "from_seed", "seed_from", "from_rng")
ENTROPY = ("thread_rng", "OsRng", "from_entropy", "random", "getrandom")


def predictable(v):
    """is it drawn from a generator that was given a seed others can know?"""
    def tl(x):
        return x.a[0].rsplit("::", 1)[-1] if isinstance(x.a[0], str) else ""
    for x in subterms(v):
        if x.k in ("call", "pure") and tl(x) in SEEDED and not contains(x, lambda y: y.k in ("call", "pure", "mut", "agg") and tl(y) in ENTROPY):
            return True
    return False


def random_whole(v):
    if predictable(v):
        return False
    if v.k == "call" and (v.a[0].startswith(("Rng::", "rand::", "random::")) or "rand" in v.a[0]):
        return True
    if v.k == "mut" and v.a[0].rsplit("::", 1)[-1] in ("fill_bytes", "try_fill_bytes", "fill", "try_fill"):
        return True
    if v.k == "proj" and v.a[1] in ("@Ok", ".0"):
        return random_whole(v.a[0])
    return False


def check_guard(ctx, b, who, fn, size):
    got = {"n": 0}
    ad = param(b.locals[3][1] or "arg3")
    buf = param(b.locals[2][1] or "arg2")

    def on_event(eng, st, hist, ev):
        if ev.kind != "call" or not (ev.trait.startswith("aead::") or "Aead" in ev.trait) or ev.name not in ("encrypt", "decrypt",
                "encrypt_in_place", "decrypt_in_place"):
            return
        got["n"] += 1
        if ev.name.split("_")[0] != fn:
            eng.report("%s:%s:direction" % (who, fn), "%s::%s asks the cipher to %s" % (who, fn, ev.name), st, ev.span)
        if not contains(ev.terms[1], lambda x: x is ad):
            eng.report("%s:%s:nonce" % (who, fn), "%s::%s does not use the nonce it is given" % (who, fn), st, ev.span)
            return
        if not any(whole(t, buf) for t in ev.terms[2:]):
            eng.report("%s:%s:buffer" % (who, fn), "%s::%s does not process the whole buffer" % (who, fn), st, ev.span)
        bits = "".join(re.findall(r"\bB([01])\b", ev.types[1] if len(ev.types) > 1 else ""))
        if bits and int(bits, 2) != size:
            eng.report("%s:%s:cipher-size" % (who, fn), "%s hands out nonces of %d bytes but its cipher takes %d" % (who, size, int(bits, 2)),
                       st, ev.span)
        if not guard(st, ad, size):
            eng.report("%s:%s:size" % (who, fn), "%s::%s uses a nonce without having checked that it is %d bytes long" % (who, fn, size),
                       st, ev.span)

    def on_ret(eng, st, hist, val):
        if is_variant(val, "Err"):
            return
        if not contains(val, lambda x: x.k == "call" and x.a[0].rsplit("::", 1)[-1] == fn and "Aead" in x.a[0]):
            eng.report("%s:%s:result" % (who, fn), "%s::%s succeeds without the cipher" % (who, fn), st)
    r = Trace(want=lambda c: "ead" in c.trait, on_event=on_event, on_ret=on_ret, wantbranch=lambda x: False)
    r.max_hist = 2
    r.keep_all_refinements = True
    ctx.run(r, b, {"self": built(ctx, b.self_adt)} if built(ctx, b.self_adt) is not None else None, what="%s::%s" % (who, fn))
    return 1 if got["n"] else 0


def guard(st, ad, size):
    var = None
    for k, v in st.ref.items():
        if not contains(k, lambda x: x is ad):
            continue
        if k.k == "op" and k.a[0] == "Eq" and v == ("is", True) and k.a[2].k == "c" and k.a[2].a[0] == size and is_len(k.a[1]):
            return True
        if is_len(k) and v == ("is", size):
            return True
        if v[0] == "is" and v[1] in BITS:
            var = v[1]
    # no length test: the kind of nonce itself must have been told apart
    if var is not None and BITS[var] == size:
        return True
    return False


def is_len(x):
    return x.k in ("call", "pure") and x.a[0].rsplit("::", 1)[-1] in ("len", "size_in_bytes")


def check_wrong_size_rejected(ctx):
    pass


def check(ctx):
    ctx.explanation = ("In OutputProcessor::process the associated data of every encryption is the result of a request made to the same encrypter in that "
                       "call, and the encryption details packetised are built from that very value; the encoder's final packets carry them unchanged; the "
                       "input processor decrypts with the nonce found on the stored final packet. Every Encrypter/Decrypter implementation is "
                       "enumerated: nonces are drawn whole from a random number generator, and each call of the underlying cipher is dominated by the "
                       "presence and the size test that matches the nonces it hands out.")
    ctx.rules = ["fresh associated data per encryption", "the same associated data travels", "the final packet's nonce decrypts",
                 "random nonces of one size per cipher", "presence and size test dominate the cipher"]
    check_output(ctx)
    check_input(ctx)
    check_ciphers(ctx)
    ctx.oblige("every nonce is fresh, checked and travels with its message", True)
