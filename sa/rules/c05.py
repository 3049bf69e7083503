"""C05: a cached nonce is refused, atomically, before the cipher is asked; clones share the cache."""
from common import *

TESTS = {"contains", "contains_key", "get", "peek", "peek_mut", "get_mut"}
PUTS = {"put", "insert", "push", "put_or_modify"}
TAKES = {"pop", "pop_lru", "clear", "resize", "remove", "retain", "drain", "take"}
LOCKS = {"write", "lock", "try_write", "try_lock"}


def guard_of(v):
    """the exclusive lock acquisition a term goes through"""
    for x in subterms(v):
        if x.k == "call" and x.a[0].rsplit("::", 1)[-1] in LOCKS and ("RwLock" in x.a[0] or "Mutex" in x.a[0]):
            return x
    return None


def shared_lock(v):
    return any(x.k == "call" and x.a[0] in ("RwLock::read", "RwLock::try_read") for x in subterms(v))


def through_cache(v):
    return contains(v, lambda x: x.k == "proj" and fields_of(x)[0] is param("self") and ".cache" in fields_of(x)[1])


def check_use(ctx, trait, fn):
    f = ctx.f
    n = {"inner": 0, "guarded": 0}
    bodies = [b for b in f.fns(fn, trait=trait) if path_match(strip_generics(b.self_adt or ""), "NonceCacheBicrypter")]
    for b in ctx.anchor(bodies, "NonceCacheBicrypter::" + fn):
        ad = param(b.locals[3][1] or "arg3")
        buf = param(b.locals[2][1] or "arg2")

        def on_event(eng, st, hist, ev):
            if ev.kind != "call":
                return
            if ev.name in TAKES and ev.terms and through_cache(ev.terms[0]) and guard_of(ev.terms[0]) is not None:
                eng.report("%s:forgets" % fn, "nonces are taken out of the cache (%s)" % ev.short, st, ev.span)
            if ev.name in PUTS and ev.terms and through_cache(ev.terms[0]):
                if guard_of(ev.terms[0]) is None:
                    eng.report("%s:unlocked" % fn, "the cache is written without an exclusive lock", st, ev.span)
                elif not (len(ev.terms) > 1 and whole(ev.terms[1], ad_nonce(ev.terms[1], ad))):
                    eng.report("%s:key" % fn, "what is registered is not the whole nonce", st, ev.span)
            if path_match(strip_generics(ev.trait), trait) and ev.name == fn:
                n["inner"] += 1
                if ev.terms[1] is not buf or ev.terms[2] is not ad:
                    eng.report("%s:arguments" % fn, "the underlying cipher is not given the same data and nonce", st, ev.span)
                adr = st.ref.get(ad)
                if adr is not None and adr == ("is", "None"):
                    return
                off = [k for k, v in st.ref.items() if v in (("is", "None"),) and through_cache(k) and guard_of(k) is None]
                if off:
                    return
                n["guarded"] += 1
                puts = [e for e in hist if e.kind == "call" and e.name in PUTS and through_cache(e.terms[0])]
                if not puts:
                    eng.report("%s:unregistered" % fn, "the underlying cipher is asked before the nonce has been registered", st, ev.span)
                    return
                p = puts[-1]
                g = guard_of(p.terms[0])
                ok = False
                for k, v in st.ref.items():
                    pass
                for e in hist:
                    if e.kind != "br":
                        continue
                    t = e.terms[0]
                    if refused_false(t, e.res, p, g, ad):
                        ok = True
                if not ok:
                    eng.report("%s:untested" % fn,
                               "the nonce is registered without having been looked up, under the same exclusive lock, and found absent",
                               st, ev.span)

        def on_ret(eng, st, hist, val):
            if is_variant(val, "Err"):
                return
            if not contains(val, lambda x: x.k == "call" and x.a[0] == "%s::%s" % (trait, fn)):
                eng.report("%s:result" % fn, "success is reported without the underlying cipher", st)
        r = Trace(on_event=on_event, on_ret=on_ret,
                  want=lambda c: c.name in TESTS | PUTS | TAKES or (path_match(strip_generics(c.trait), trait) and c.name == fn),
                  wantbranch=lambda t: contains(t, lambda x: x.k in ("call", "pure") and x.a[0].rsplit("::", 1)[-1] in TESTS | PUTS))
        r.max_hist = 30
        r.keep_all_refinements = True
        ctx.run(r, b)
    ctx.count("uses of the underlying cipher by %s" % fn, n["inner"], 1)
    ctx.count("uses behind the cache by %s" % fn, n["guarded"], 1)


def ad_nonce(v, ad):
    """the nonce within the associated data that the term is made of"""
    best = None
    for x in subterms(v):
        if x.k == "proj" and fields_of(x)[0] is ad:
            if best is None or x.depth > best.depth:
                best = x
    return best if best is not None else ad


def refused_false(t, res, p, g, ad):
    neg = res
    while t.k == "op" and t.a[0] == "Not":
        t = t.a[1]
        neg = (not neg) if isinstance(neg, bool) else neg
    # unwrap is_some / is_none
    nm = t.a[0].rsplit("::", 1)[-1] if t.k in ("call", "pure") else ""
    if nm in ("is_some", "is_none"):
        args = t.a[2] if t.k == "call" else t.a[1]
        t = args[0]
        if isinstance(neg, bool):
            neg = "Some" if neg == (nm == "is_some") else "None"
        nm = t.a[0].rsplit("::", 1)[-1] if t.k in ("call", "pure") else ""
    if nm in TESTS | PUTS:
        args = t.a[2] if t.k == "call" else t.a[1]
        if guard_of(args[0]) is not g or g is None:
            return False
        if len(args) < 2 or not whole(args[1], ad_nonce(args[1], ad)):
            return False
        return neg in (False, "None")
    return False


def check_shape(ctx):
    f = ctx.f
    adts = [a for a in f.adts.values() if path_match(strip_generics(a.path), "NonceCacheBicrypter")]
    for a in ctx.anchor(adts, "type NonceCacheBicrypter")[:1]:
        tys = field_types(a)
        ok = any(shared(f, t, 0) for n, t in tys if n == "cache") or any(shared(f, t, 0) and "Lru" in deep(f, t, 0) for n, t in tys)
        ctx.oblige("the cache is shared between clones", ok, "clone:unshared", "clones of NonceCacheBicrypter do not share one cache")
    for b in [b for b in f.local_bodies(derived=True) if b.kind == "fn" and b.name == "clone" and
              path_match(strip_generics(b.self_adt or ""), "NonceCacheBicrypter")]:
        def on_ret(eng, st, hist, val):
            c = field(val, "cache") if val.k == "agg" else None
            if c is not None and c.k in ("call", "pure") or c is not None and c.k == "agg" and (
                    is_variant(c, "None") and st.ref.get(mk("proj", param("self"), ".cache")) != ("is", "None")):
                eng.report("clone:fresh", "a clone of NonceCacheBicrypter gets a cache of its own", st)
        r = Trace(want=lambda c: False, on_ret=on_ret)
        ctx.run(r, b)
    made = {"n": 0}
    for b in ctx.anchor(f.fns("new", self_adt="NonceCacheBicrypter"), "NonceCacheBicrypter::new"):
        size = param(b.locals[2][1] or "arg2")

        def on_ret(eng, st, hist, val):
            if val.k != "agg":
                return
            c = field(val, "cache")
            caps = [x for x in subterms(c) if x.k in ("call", "pure") and x.a[0].startswith("LruCache::")]
            if caps:
                made["n"] += 1
                args = caps[0].a[2] if caps[0].k == "call" else caps[0].a[1]
                arg = args[0] if args else None
                if arg is None or not (arg is size or (contains(arg, lambda x: x is size) and not contains(
                        arg, lambda x: x.k == "op" or x.k in ("call", "pure") and x.a[0].rsplit("::", 1)[-1] in ("min", "max")))):
                    eng.report("capacity", "the nonce cache does not have the configured capacity", st)
            else:
                # no cache only when the size is zero
                zero = any(k.k == "op" and contains(k, lambda x: x is size) for k in st.ref) or \
                    any(k is size and v == ("is", 0) for k, v in st.ref.items())
                if not zero:
                    eng.report("no-cache", "no nonce cache is kept although one was asked for", st)
                for k, v in st.ref.items():
                    if k.k == "op" and k.a[0] == "Lt" and k.a[1].k == "c" and k.a[2] is size:
                        if (v == ("is", False)) and k.a[1].a[0] != 0:
                            eng.report("no-cache", "no nonce cache is kept although one was asked for", st)
                        if v == ("is", True):
                            eng.report("no-cache", "no nonce cache is kept although one was asked for", st)
        r = Trace(want=lambda c: False, on_ret=on_ret)
        r.keep_all_refinements = True
        ctx.run(r, b)
    ctx.count("caches made", made["n"], 1)


def field_types(a):
    out = []
    for _, _, fields in a.variants:
        for x in fields:
            if isinstance(x, dict):
                out.append((x["name"], x.get("ty", "")))
            else:
                out.append((x[0], x[1] if len(x) > 1 else ""))
    return out


def shared(f, t, d):
    if "sync::Arc<" in t or "rc::Rc<" in t:
        return True
    if d > 3:
        return False
    for a in f.adts.values():
        if a.local and strip_generics(a.path) and strip_generics(a.path) in t:
            if any(shared(f, u, d + 1) for _, u in field_types(a)):
                return True
    return False


def deep(f, t, d):
    s = t
    if d < 3:
        for a in f.adts.values():
            if a.local and strip_generics(a.path) in t:
                s += " ".join(deep(f, u, d + 1) for _, u in field_types(a))
    return s


def check(ctx):
    ctx.explanation = ("Every path of NonceCacheBicrypter::encrypt and ::decrypt to the underlying cipher with a nonce and a cache must register the whole "
                       "nonce, after a lookup of the whole nonce that found it absent, both through one acquisition of one exclusive lock; nothing "
                       "is taken out of the cache; the cache field is reference counted and Clone passes it on; the constructor sizes it as configured.")
    ctx.rules = ["lookup-absent and registration under one exclusive lock dominate the cipher", "the cache is shared by clones", "capacity as configured"]
    ctx.assumptions = ["LruCache keeps the most recently inserted entries up to its capacity"]
    check_use(ctx, "Encrypter", "encrypt")
    check_use(ctx, "Decrypter", "decrypt")
    check_shape(ctx)
    ctx.oblige("a cached nonce is refused before the cipher is asked", True)
