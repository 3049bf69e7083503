"""C28: a configured cipher or authenticator is always the one in force."""
from common import *
from rules import cli
from rules.cli import feasible, is_launch, option, setting
from rules.c30 import peel
from rules.wiring import check_clones, check_wires

KEYS = {"Aes128Gcm": 16, "Aes256Gcm": 32, "Aes128GcmSiv": 16, "Aes256GcmSiv": 32, "Aes128Siv": 32, "Aes256Siv": 64}
SHAS = ("Sha256", "Sha512")
# calls that hand their argument on as it is, or not at all
SAME = {"clone_from_slice", "from_slice", "new", "new_varkey", "try_into", "try_from", "into", "from", "as_bytes", "to_vec", "into_bytes", "expect", "unwrap", "into_vec", "as_ref",
        "collect", "into_iter", "iter", "copied", "cloned", "into_boxed_slice", "as_slice", "from_exact_iter", "ok", "ok_or", "ok_or_else", "map_err", "new_from_slice", "as_mut_slice",
        "unwrap_or_default", "from_iter", "to_owned", "clone", "as_deref"}
FILL = {"copy_from_slice", "clone_from_slice", "extend_from_slice", "write_all", "extend", "append", "write"}


def whole(x):
    """x[..]"""
    return tail(x) in ("index", "index_mut") and len(args_of(x)) == 2 and args_of(x)[1].k == "agg" and "RangeFull" in str(args_of(x)[1].a[0])


def source(v):
    """the value that v is a plain copy of"""
    while True:
        w = peel(v)
        if w.k in ("call", "pure") and args_of(w) and (tail(w) in SAME or whole(w)):
            w = args_of(w)[0]
        elif w.k == "mut" and tail(w) in FILL and len(w.a[3]) == 2 and not contains(w.a[3][0], lambda x: x.k in ("param", "mut")):
            w = w.a[3][1]
        elif w.k == "proj" and w.a[1] in (".0", "@Ok", "@Some") and w.a[0].k != "param":
            u = w
            while u.k == "proj" and u.a[1] in (".0", "@Ok", "@Some"):
                u = u.a[0]
            if u.k not in ("call", "pure", "mut") or tail(u) not in SAME:
                return w
            w = u
        elif w.k == "agg" and len(w.a[2]) == 1 and w.a[0] not in ("closure", "coroutine"):
            w = w.a[2][0][1]
        if w is v:
            return v
        v = w


def key_in(opt):
    return mk("proj", mk("proj", opt, "@Some"), ".0")


def sized(st, key, n):
    """has the key been found to have n bytes on this path?"""
    def length(x):
        return x.k in ("call", "pure") and tail(x) in ("len",) and source(args_of(x)[0]) is key
    for t, r in st.ref.items():
        if r[0] != "is":
            continue
        if length(t) and r[1] == n:
            return True
        if t.k == "op" and len(t.a) == 3 and t.a[0] in ("Eq", "Ne"):
            for x, y in ((t.a[1], t.a[2]), (t.a[2], t.a[1])):
                if length(x) and y.k == "c" and y.a[0] == n and bool(r[1]) == (t.a[0] == "Eq"):
                    return True
        if t.k in ("call", "pure") and tail(t) in ("try_into", "try_from", "from_exact_iter") and args_of(t) and source(args_of(t)[0]) is key and r[1] in ("Ok", "Some"):
            return True
    return False


def known(st, opt):
    if opt is None:
        return None
    r = st.ref.get(opt)
    return r[1] if r is not None and r[0] == "is" else None


def holds(parts, key):
    """'yes', 'no', or None where it cannot be said that one of the values is the key, whole"""
    if any(source(p) is key for p in parts):
        return "yes"
    if not any(contains(p, lambda x: x is key) for p in parts):
        return None if any(contains(p, lambda x: x.k == "mut" and tail(x) not in FILL | {"fill"}) for p in parts) else "no"
    for p in parts:
        for x in subterms(p):
            if x.k == "mut" and tail(x) not in FILL and x.a[3] and source(x.a[3][x.a[2]]) is key:
                return "part"
            if (x.k in ("call", "pure", "mut") and tail(x) in LOSSY and not whole(x) and any(contains(y, lambda z: z is key) for y in kids(x))) \
                    or (x.k == "proj" and x.a[1] == "[]" and source(x.a[0]) is key):
                return "part"
    return None


def check_launch(ctx):
    reached = {}
    undecided = []
    n = {"net": 0}

    def on_net(eng, st, hist, ev):
        n["net"] += 1
        auth, enc = option(st, "authentication"), option(st, "encryption")
        a, e = known(st, auth), known(st, enc)
        side = "client" if path_match(ev.self_adt, "Client") or ev.name in ("lookup_host",) else "server"
        what = "%s (%s)" % (ev.name, side)
        for sel, nm, kn in ((a, "authentication", "authentication_key"), (e, "encryption", "encryption_key")):
            if sel is None:
                eng.report("early:%s:%s" % (side, nm), "the %s uses the network (%s) without having looked at the selected %s" % (side, ev.short, nm), st, ev.span)
                return
            if sel == "None":
                continue
            ko = option(st, kn)
            if known(st, ko) != "Some":
                eng.report("key:%s:%s" % (side, sel), "the %s uses the network (%s) with %s selected although it may have been given no key" % (side, ev.short, sel), st, ev.span)
                return
            if sel in KEYS and not sized(st, key_in(ko), KEYS[sel]):
                eng.report("size:%s:%s" % (side, sel), "the %s uses the network (%s) with %s selected without having found its key to be %d bytes long"
                           % (side, ev.short, sel, KEYS[sel]), st, ev.span)
                return
        if not (ev.name in cli.LAUNCH and ev.path.find("core::") >= 0):
            return
        me = ev.terms[0]
        reached.setdefault(side, set()).add((a, e))
        for sel, nm, setting_name, suffix in ((a, "authentication_key", "authenticator", "Authenticator"), (e, "encryption_key", "bicrypter", "Bicrypter")):
            v = setting(me, setting_name)
            if v is None:
                undecided.append("the %s of the %s is not a value the analysis can follow" % (setting_name, side))
                continue
            v = peel(v)
            want = ("Noop" if sel == "None" else sel) + suffix
            if v.k != "agg":
                if sel != "None" and not contains(v, lambda x: x is key_in(option(st, nm))):
                    eng.report("other:%s:%s" % (side, sel), "the %s is started with %s selected and a %s that was not built from the given key" % (side, sel, setting_name), st, ev.span)
                else:
                    undecided.append("the %s of the %s is %s" % (setting_name, side, show(v, -3)))
                continue
            got = strip_generics(v.a[0]).rsplit("::", 1)[-1]
            if got != want:
                known_kinds = {("Noop" if k == "None" else k) + suffix for k in list(KEYS) + list(SHAS) + ["None"]}
                if got in known_kinds:
                    eng.report("kind:%s:%s" % (side, sel), "the %s is started with a %s although %s is selected" % (side, got, sel), st, ev.span)
                else:
                    undecided.append("%s is not a known %s" % (got, setting_name))
                continue
            if sel == "None":
                continue
            h = holds([y for _, y in v.a[2]], key_in(option(st, nm)))
            if h == "no":
                eng.report("foreign-key:%s:%s" % (side, sel), "the %s of the %s is not built from the given %s" % (got, side, nm), st, ev.span)
            elif h == "part":
                eng.report("part-key:%s:%s" % (side, sel), "the %s of the %s is built from a part of the given %s only" % (got, side, nm), st, ev.span)
            elif h is None:
                undecided.append("how %s is keyed" % got)
    cli.launches(ctx, on_net)
    ctx.count("uses of the network on the way to a start", n["net"], 2)
    auths, encs = [variants(ctx, x) for x in ("Authentication", "Encryption")]
    if not ctx.inconclusive and auths and encs:
        for side in ("client", "server"):
            missing = sorted((a, e) for a in auths for e in encs if (a, e) not in reached.get(side, ()))
            ctx.oblige("every combination of authenticator and cipher starts a %s" % side, not missing, "combos:%s" % side,
                       "a %s cannot be started with %s" % (side, ", ".join("%s+%s" % x for x in missing[:4])))
        ctx.count("combinations that start", sum(len(x) for x in reached.values()), 2)
    for u in sorted(set(undecided)):
        ctx.inconclusive.append(u)


def variants(ctx, name):
    for k, a in ctx.f.adts.items():
        if k.startswith("cli::opts") and k.rsplit("::", 1)[-1] == name:
            return [v[0] for v in a.variants]
    return []


def cipher_of(ty):
    """name of the cipher a type implements"""
    if re.search(r"aes_gcm_siv::AesGcmSiv<[^>]*Aes(128|256)\b", ty):
        return "Aes%sGcmSiv" % re.search(r"AesGcmSiv<[^>]*Aes(128|256)\b", ty).group(1)
    m = re.search(r"aes_gcm::AesGcm<[^>]*?\bAes(128|256)\b", ty)
    if m:
        return "Aes%sGcm" % m.group(1)
    m = re.findall(r"\bAes(128|256)\b", ty) if "aes_siv::" in ty else []
    if m:
        return "Aes%sSiv" % m[0] if len(set(m)) == 1 else "mixed"
    return None


def check_ciphers(ctx):
    """the cipher inside each bicrypter is the one it is named for, and does the work"""
    n = 0
    for k, a in sorted(ctx.f.adts.items()):
        nm = k.rsplit("::", 1)[-1]
        if not nm.endswith("Bicrypter") or nm[:-9] not in KEYS or not k.startswith("core::"):
            continue
        want = nm[:-9]
        inner = [(f[0], cipher_of(f[1])) for v in a.variants for f in v[2]]
        inner = [x for x in inner if x[1]]
        if not inner:
            continue
        n += 1
        ctx.oblige("%s is built on %s" % (nm, want), all(c == want for _, c in inner), "cipher:" + nm, "%s is built on %s" % (nm, inner[0][1]))
        mine = {mk("proj", param("self"), "." + x) for x, _ in inner}
        for op, trait in (("encrypt", "Encrypter"), ("decrypt", "Decrypter")):
            for b in ctx.f.fns(op, self_adt=nm, trait=trait):
                def on_ret(eng, st, hist, val, op=op, b=b, nm=nm, mine=mine):
                    if not feasible(st) or not (val.k == "agg" and val.a[1] == "Ok"):
                        if val.k == "agg":
                            return
                    v = dict(val.a[2])["0"] if val.k == "agg" else val
                    buf = param(b.locals[2][1] or "arg2")
                    did = [x for x in subterms(v) if x.k in ("call", "pure", "mut") and tail(x).startswith(op)
                           and any(contains(y, lambda z: z in mine) for y in kids(x))]
                    if not did:
                        eng.report("%s:%s" % (op, nm), "%s can %s without the cipher of %s" % (op, "succeed", nm), st)
                    elif not any(contains(x, lambda z: z is buf) for x in did):
                        eng.report("%s:%s:data" % (op, nm), "%s::%s does not work on the data it is given" % (nm, op), st)
                r = Trace(want=lambda c: False, on_ret=on_ret, wantbranch=lambda t: False)
                r.keep_all_refinements = True
                ctx.run(r, b, what="%s::%s" % (nm, op))
    ctx.count("bicrypters whose cipher is known", n, 1)


def check(ctx):
    ctx.explanation = ("Every path from the parsed command line to the first and to every later use of the network while starting a client or server is enumerated. On each, "
                       "the selected authenticator and cipher must be known, their keys must be present, and the cipher's key must have been found to have the size of that "
                       "cipher; at the launch the configuration must hold the authenticator and cipher of exactly the selected kind, built from the whole of the given key. "
                       "Every combination must reach a launch on both sides. The cipher type inside each bicrypter is read off its type, and each operation must go through it; "
                       "the tasks a node spawns must own processors built around the configured values.")
    ctx.rules = ["no use of the network before the selection and keys were validated", "selected kind = kind in the configuration, keyed with the given key, whole",
                 "every combination reaches a launch", "each bicrypter is built on and uses the cipher it is named for", "clones share the key", "the node's tasks use the configured ones"]
    if cli.present(ctx):
        check_launch(ctx)
    check_ciphers(ctx)
    check_clones(ctx)
    check_wires(ctx, ("verifier", "decrypter", "signer", "encrypter"))
