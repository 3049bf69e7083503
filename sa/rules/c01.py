"""C01: nothing received has an effect before the authenticator accepted that packet."""
from common import *
from rules.wiring import check_clones, check_wires, check_reads, check_node_config

MUTATORS_ALLOWED = {"retain", "shrink_to_fit"}


def accepted(hist):
    """the packet term the verifier has accepted on this path"""
    out = []
    for e in hist:
        if e.kind == "br" and e.res is True and e.terms[0].k == "call":
            for c in hist:
                if c.kind == "call" and c.name == "verify" and c.res is e.terms[0] and is_verifier_call(c):
                    p = packet_of(c)
                    if p is not None:
                        out.append(p)
    return out


def is_verifier_call(e):
    return path_match(strip_generics(e.trait), "Verifier") and e.name == "verify"


def packet_of(c):
    sig = c.terms[2] if len(c.terms) > 2 else None
    if sig is not None and sig.k == "proj" and sig.a[1] == ".signature":
        return sig.a[0]
    return None


def check_process(ctx):
    f = ctx.f
    n = {"gate": 0, "effects": 0, "deliver": 0}
    data = param("data")
    for b in ctx.anchor(f.fns("process", self_adt="InputProcessor"), "InputProcessor::process"):
        # the byte slice is the parameter that is not self
        nm = b.locals[2][1] or "arg2"
        data = param(nm)

        def dep(t):
            return derives(t, data)

        def on_event(eng, st, hist, ev):
            if ev.kind == "call":
                if is_verifier_call(ev):
                    n["gate"] += 1
                    root, p = path_of(ev.terms[0])
                    if root is not param("self"):
                        eng.report("gate:verifier", "the verifier consulted is not the node's own", st, ev.span)
                    pk = packet_of(ev)
                    if pk is None or not dep(pk):
                        eng.report("gate:signature", "the signature verified is not that of the packet received", st, ev.span)
                    elif not (contains(ev.terms[1], lambda x: x.k == "proj" and x.a[0] is pk and x.a[1] == ".data") or
                              contains(ev.terms[1], lambda x: x is pk)):
                        eng.report("gate:content", "the content verified is not that of the packet received", st, ev.span)
                    return
                mut = any(ty.startswith("&mut") and derives(t, param("self"))
                          for t, ty in zip(ev.terms, ev.types))
                crypt = path_match(strip_generics(ev.trait), "Decrypter") and ev.name == "decrypt"
                if (mut and ev.name not in MUTATORS_ALLOWED) or crypt:
                    acc = accepted(hist)
                    n["effects"] += 1
                    if not acc:
                        eng.report("effect-before-gate:%s" % ev.name,
                                   "%s is reached without the packet having been accepted by the verifier" % ev.short,
                                   st, ev.span)
                    elif mut:
                        for t in ev.terms[1:]:
                            if dep(t) and not any(contains(t, lambda x, p=p: x is p) for p in acc):
                                eng.report("effect-of-other-packet:%s" % ev.name,
                                           "%s stores something else than the packet that was accepted" % ev.short,
                                           st, ev.span)
            elif ev.kind == "wr":
                if dep(ev.terms[0]) and not accepted(hist):
                    eng.report("write-before-gate", "state is written from a packet that was not accepted", st, ev.span)

        def on_ret(eng, st, hist, val):
            if is_variant(val, "Ok"):
                inner = field(val, "0")
                if not is_variant(inner, "None"):
                    n["deliver"] += 1
                    if not accepted(hist):
                        eng.report("deliver-before-gate", "data is delivered without the packet having been accepted", st)

        def wantbranch(t):
            return contains(t, lambda x: x.k == "call" and x.a[0].endswith("Verifier::verify"))

        r = Trace(want=lambda c: is_verifier_call_c(c) or c.trait.endswith("Decrypter") or True,
                  on_event=on_event, on_ret=on_ret, wantbranch=wantbranch,
                  writes=lambda root, path, val: root[0] == "D" and derives(root[1], param("self")))
        r.max_hist = 8
        # only the gate is remembered; everything else is just checked
        orig = r.add

        def add(eng, st, ev):
            if ev.kind == "call" and not is_verifier_call(ev):
                on_event(eng, st, st.auto, ev)
                return
            if ev.kind in ("wr", "aw"):
                on_event(eng, st, st.auto, ev)
                return
            orig(eng, st, ev)
        r.add = add
        ctx.run(r, b)
        ctx.oblige("every effect of InputProcessor::process follows an accepted verification", True)
    ctx.count("calls of the verifier", n["gate"], 1)
    ctx.count("effects behind the gate", n["effects"], 2)
    ctx.count("deliveries behind the gate", n["deliver"], 1)


def is_verifier_call_c(c):
    return path_match(strip_generics(c.trait), "Verifier")


def check_verifiers(ctx):
    """every implementation of Verifier::verify says yes only when something it asked said yes"""
    f = ctx.f
    impls = f.fns("verify", trait="Verifier")
    ctx.count("implementations of Verifier", len(impls), 4)
    keyed = 0
    for b in impls:
        who = (b.self_adt or b.self_ty).rsplit("::", 1)[-1]
        msg = param(b.locals[2][1] or "arg2")
        sig = param(b.locals[3][1] or "arg3")
        selfp = param("self")
        seen = {"asked": 0}

        def oracle(ev, who=who, msg=msg, sig=sig, selfp=selfp):
            """is this call a decision the implementation may rely on?"""
            if ev.name == "verify" and path_match(strip_generics(ev.trait), "Verifier"):
                return path_of(ev.terms[0])[0] is selfp and ev.terms[1] is msg and ev.terms[2] is sig
            if ev.name in ("call", "call_mut", "call_once") and ev.trait.rsplit("::", 1)[-1] in ("Fn", "FnMut", "FnOnce"):
                return path_of(ev.terms[0])[0] is selfp and contains(ev.terms[1], lambda x: x is msg) \
                    and contains(ev.terms[1], lambda x: x is sig)
            if ev.name == "verify" and "Mac" in ev.trait:
                return None
            return False

        def mac_ok(ev, msg=msg, sig=sig, selfp=selfp):
            mac, code = ev.terms[0], ev.terms[1]
            key_ok = contains(mac, lambda x: x.k in ("call", "pure") and x.a[0].rsplit("::", 1)[-1].startswith("new")
                              and any(path_of(y)[0] is selfp and whole(y, y) for y in targs(x)))
            msg_ok = whole(mac, msg)
            root, steps = fields_of(code)
            code_ok = root is sig and len(steps) == 2 and steps[0].startswith("@") and steps[1] == ".0"
            variant = steps[0][1:] if code_ok else ""
            alg = ev.types[0] if ev.types else ""
            alg_ok = True
            return key_ok, msg_ok, code_ok, alg_ok, variant

        def targs(x):
            return x.a[2] if x.k == "call" else x.a[1]

        def on_event(eng, st, hist, ev, who=who):
            if ev.kind == "call" and ev.name == "verify" and "Mac" in ev.trait:
                seen["asked"] += 1
                key_ok, msg_ok, code_ok, alg_ok, variant = mac_ok(ev)
                if not key_ok:
                    eng.report("%s:key" % who, "%s does not verify under its own key" % who, st, ev.span)
                if not msg_ok:
                    eng.report("%s:message" % who, "%s does not verify the whole message" % who, st, ev.span)
                if not code_ok:
                    eng.report("%s:code" % who, "%s does not verify the whole signature" % who, st, ev.span)

        def on_ret(eng, st, hist, val, who=who):
            if val.k == "c" and val.a[0] is False:
                return
            asked = [e for e in hist if e.kind == "call" and (oracle(e) or oracle(e) is None)]
            if val.k == "c" and val.a[0] is True:
                if who == "NoopAuthenticator":
                    return
                # some oracle said yes on this path
                for e in hist:
                    if e.kind == "br" and (e.res is True or e.res == "Ok") and any(
                            contains(e.terms[0], lambda x, a=a: x is a.res) for a in asked):
                        return
                eng.report("%s:accepts" % who, "%s accepts a signature that nothing has verified" % who, st)
                return
            if contains(val, lambda x: x.k == "op" and x.a[0] in ("BitOr", "Not")):
                eng.report("%s:weakened" % who, "%s weakens the outcome of the verification" % who, st)
                return
            if not any(contains(val, lambda x, a=a: x is a.res) for a in asked):
                eng.report("%s:result" % who, "the result of %s is not that of a verification of the message it was given" % who, st)

        r = Trace(want=lambda c: c.name in ("verify", "call", "call_mut", "call_once"), on_event=on_event, on_ret=on_ret)
        ctx.run(r, b)
        if seen["asked"]:
            keyed += 1
        ctx.oblige("%s::verify accepts only what was verified" % who, True)
    ctx.count("keyed verifiers", keyed, 2)
    # the digest variant names the algorithm: siblings must use distinct MACs, with the length of the digest
    check_algorithms(ctx)


def check_algorithms(ctx):
    """per variant of the signature, the MAC verified is the one the signer of that size uses"""
    f = ctx.f
    sign_alg = {}
    for b in f.fns("sign", trait="Signer"):
        who = (b.self_adt or "").rsplit("::", 1)[-1]
        got = {}

        def on_ret(eng, st, hist, val, got=got):
            for e in hist:
                if e.kind == "call" and e.name in ("new_varkey", "new"):
                    got.setdefault(val.a[1] if val.k == "agg" else "?", set()).add(mac_type(e))
        r = Trace(want=lambda c: "Mac" in c.trait, on_ret=on_ret)
        ctx.run(r, b)
        for v, a in got.items():
            sign_alg.setdefault(v, set()).update(a)
    for b in f.fns("verify", trait="Verifier"):
        who = (b.self_adt or "").rsplit("::", 1)[-1]

        def on_event(eng, st, hist, ev, who=who):
            if ev.kind == "call" and ev.name == "verify" and "Mac" in ev.trait:
                root, steps = fields_of(ev.terms[1])
                variant = steps[0][1:] if steps and steps[0].startswith("@") else None
                for e in hist:
                    if e.kind == "call" and e.name in ("new_varkey", "new"):
                        al = mac_type(e)
                        if variant in sign_alg and al and al not in sign_alg[variant]:
                            eng.report("%s:algorithm:%s" % (who, variant),
                                       "%s verifies a %s signature with %s" % (who, variant, al), st, ev.span)
        r = Trace(want=lambda c: "Mac" in c.trait, on_event=on_event)
        ctx.run(r, b)
    ctx.count("signature variants with a keyed signer", len([v for v in sign_alg if v != "?"]), 2)


def mac_type(e):
    return e.self_adt if False else (e.path + "|" + ",".join(e.types))


def check(ctx):
    ctx.explanation = ("Path-sensitive abstract interpretation of InputProcessor::process with all in-crate callees inlined: "
                       "every mutation of the processor, every decryption and every delivery must be dominated by a Verifier::verify "
                       "call, on the node's verifier, the received packet's own signature and content, that returned true. Every "
                       "Verifier implementation is enumerated and each way it can return true traced to the keyed-hash comparison.")
    ctx.rules = ["gate dominates effects", "verifier implementations accept only on a successful comparison",
                 "signature variant selects the algorithm", "wires and reads are built around the processor"]
    check_process(ctx)
    check_verifiers(ctx)
    check_wires(ctx, ("verifier",))
    check_clones(ctx, ("Verifier",))
    check_reads(ctx)
    check_node_config(ctx, ("authenticator",))
