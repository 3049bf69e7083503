"""C08: groups are released when complete and when expired; nothing sent is retained per message."""
from common import *
from rules import wiring

GROW = {"insert", "push", "push_back", "push_front", "entry", "extend", "put", "append", "get_or_insert_with", "insert_with", "or_insert",
        "or_insert_with", "extend_from_slice", "replace", "get_or_insert"}


def is_groups(v):
    return contains(v, lambda x: x.k == "proj" and x.a[1] == ".packet_groups")


def on_map(c):
    return ("collections" in c.path or "HashMap" in c.path or "BTreeMap" in c.path or "Vec" in c.path or "Lru" in c.path
            or "HashSet" in c.path or "VecDeque" in c.path) and not c.local


def bool_rets(ctx, clo, opaque, names=("elem",)):
    body = ctx.f.body(clo.a[1])
    out = []
    args = [param(n) for n in names][:body.argc - 1]
    r = Trace(want=lambda c: False, opaque=opaque, on_ret=lambda eng, st, h, v: out.append((v, dict(st.ref))))
    r.keep_all_refinements = True
    ctx.run(r, body, dict(enumerate([clo] + args, 1)), what="closure of " + owner_path(ctx.f, body))
    return out


def unnot(t, val=True):
    while t.k == "op" and t.a[0] == "Not":
        t, val = t.a[1], not val
    return t, val


def predicate(rets, pick):
    """+1 if the boolean function equals the picked test, -1 if its negation, None otherwise"""
    out = set()
    for v, ref in rets:
        v, s = unnot(v)
        if v.k == "c" and isinstance(v.a[0], bool):
            val = v.a[0] == s
            known = set()
            for k, r in ref.items():
                if r[0] == "is" and isinstance(r[1], bool):
                    t, tv = unnot(k, True)
                    if pick(t):
                        known.add(r[1] == tv)
            if len(known) != 1:
                return None
            out.add(1 if known.pop() == val else -1)
        elif pick(v):
            out.add(1 if s else -1)
        else:
            return None
    return out.pop() if len(out) == 1 else None


def expired_call(c):
    return c.name == "has_expired" and c.local


def expired_test(elem):
    return lambda t: tail(t) == "has_expired" and path_of(args_of(t)[0])[0] is elem


def check_ttl(ctx):
    """a TtlValue has expired iff its own ttl has elapsed since its own last touch"""
    n = 0
    for b in ctx.anchor(ctx.f.fns("has_expired", self_adt="TtlValue"), "TtlValue::has_expired"):
        me = param("self")
        rets = []
        r = Trace(want=lambda c: False, on_ret=lambda eng, st, h, v: rets.append((v, dict(st.ref))))
        r.keep_all_refinements = True
        ctx.run(r, b)
        n += 1

        def elapsed(x):
            return tail(x) in ("elapsed", "duration_since", "saturating_duration_since", "sub") and \
                contains(x, lambda y: y is mk("proj", me, ".last_touched"))

        def ttl(x):
            return path_of(x)[1].split(".")[0] == "ttl"

        def form(t, s):
            """does the value s of t mean expired (True) / not (False) / something else (None)"""
            t, s = unnot(t, s)
            nm = tail(t)
            if nm in ("is_some", "is_none") and tail(args_of(t)[0]) == "checked_sub":
                a = args_of(args_of(t)[0])
                if elapsed(a[0]) and ttl(a[1]):
                    return s == (nm == "is_some")
            if t.k == "op" and t.a[0] == "Eq" and t.a[1].k == "discr" and tail(t.a[1].a[0]) == "checked_sub" and t.a[2].k == "c":
                a = args_of(t.a[1].a[0])
                if elapsed(a[0]) and ttl(a[1]):
                    return s == (t.a[2].a[0] == 1)
            if t.k == "op" and t.a[0] == "Lt":
                if elapsed(t.a[1]) and ttl(t.a[2]):
                    return not s
                if ttl(t.a[1]) and elapsed(t.a[2]):
                    return s
            if nm in ("ge", "gt", "lt", "le") and len(args_of(t)) == 2:
                a, c = args_of(t)
                if elapsed(a) and ttl(c):
                    return s == (nm in ("ge", "gt"))
                if ttl(a) and elapsed(c):
                    return s == (nm in ("le", "lt"))
            return None
        for v, ref in rets:
            ok = None
            if v.k == "c" and isinstance(v.a[0], bool):
                for k, rr in ref.items():
                    f = None
                    if rr[0] == "is" and isinstance(rr[1], bool):
                        f = form(k, rr[1])
                    elif rr[0] == "is" and rr[1] in ("Some", "None") and tail(k) == "checked_sub" and elapsed(args_of(k)[0]) and ttl(args_of(k)[1]):
                        f = rr[1] == "Some"
                    if f is not None:
                        ok = f == v.a[0]
            else:
                ok = form(v, True)
            if not ok:
                ctx.violation("has-expired", "TtlValue::has_expired does not tell whether its ttl has elapsed since it was last touched", b.span)
    return n


def check_process(ctx, n):
    for b in ctx.anchor(ctx.f.fns("process", self_adt="InputProcessor"), "InputProcessor::process"):
        def value(eng, st, call):
            c = call.callee
            if c is not None and c.local and c.name == "verify" and path_match(c.self_adt, "Decoder"):
                n["verify"] += 1
                return mk("pure", "complete", (call.terms[1],))
            return None

        def complete(st, hist):
            out = {}
            for e in hist:
                if e.kind == "br" and e.terms[0].k == "pure" and e.terms[0].a[0] == "complete":
                    out[e.terms[0].a[1][0]] = e.res
            return out

        def on_event(eng, st, hist, ev):
            if ev.kind != "call":
                return
            if ev.name in ("insert", "push") and any(x.k == "proj" and x.a[1] == ".packets" for x in subterms(ev.terms[0])) and is_groups(ev.terms[0]):
                n["store"] += 1
                if not any(e.kind == "call" and e.name == "retain" or e.kind == "wr" for e in hist):
                    eng.report("expire", "a packet is stored before expired groups have been dropped", st, ev.span)
            elif is_groups(ev.terms[0]) and ev.terms[0].k == "proj" and ev.terms[0].a[1] == ".packet_groups":
                if ev.name in ("remove", "remove_entry"):
                    n["remove"] += 1
                    cm = complete(st, hist)
                    if not any(v is True and same_id(k, ev.terms[1]) for k, v in cm.items()):
                        eng.report("dropped", "a group is dropped that is not known to be complete", st, ev.span)
                elif ev.name in ("clear", "drain", "shrink_to", "split_off", "pop_first", "take"):
                    eng.report("dropped", "groups are dropped regardless of being complete or expired", st, ev.span)

        def on_ret(eng, st, hist, val):
            for k, v in complete(st, hist).items():
                if v is True:
                    n["done"] += 1
                    if not any(e.kind == "call" and e.name in ("remove", "remove_entry") and same_id(k, e.terms[1]) for e in hist):
                        eng.report("released", "a complete message's packets stay in memory on a way out (%s)" % (val.a[1] if val.k == "agg" else "?"), st)

        def relevant(c):
            return on_map(c) and c.name in ("remove", "remove_entry", "retain", "clear", "drain", "insert") or c.name == "verify" and c.local

        r = Trace(want=lambda c: on_map(c) and c.name in ("remove", "remove_entry", "retain", "clear", "drain", "insert", "push", "split_off", "pop_first"),
                  on_event=on_event, on_ret=on_ret, value=value, relevant=relevant,
                  wantbranch=lambda t: t.k == "pure" and t.a[0] == "complete",
                  writes=lambda root, path, val: "packet_groups" in "".join(path))
        ctx.run(r, b)


def same_id(a, b):
    def core(v):
        v = unconv(v)
        while v.k == "agg" and v.a[2] and v.a[0].endswith("TtlValue"):
            v = unconv(field(v, "value"))
        return v
    return core(a) is core(b)


def check_retain(ctx, n):
    """what is kept by every retain over packet groups"""
    f = ctx.f
    for b in f.local_bodies():
        if not (path_match(b.self_adt, "Decoder") or path_match(b.self_adt, "InputProcessor")) or b.kind != "fn":
            continue
        if not any(cj["name"] in ("retain", "filter", "drain_filter") for cj in calls_of(b)):
            continue

        def on_event(eng, st, hist, ev):
            if ev.kind != "call" or not is_groups(ev.terms[0]):
                return
            for clo in closures(ev.terms[1]):
                n["retain"] += 1
                rets = bool_rets(ctx, clo, expired_call, ("key", "group") if ev.name == "retain" else ("key",))
                p = predicate(rets, expired_test(param("key")))
                if p != -1:
                    eng.report("keeps", "the groups kept are not exactly those that have not expired", st, ev.span)
        r = Trace(want=lambda c: c.name in ("retain",) and not c.local, on_event=on_event, opaque=expired_call)
        ctx.run(r, b)


def check_key(ctx, n):
    for b in ctx.anchor(ctx.f.fns("add_packet", self_adt="Decoder"), "Decoder::add_packet"):
        def on_event(eng, st, hist, ev):
            if ev.kind != "call" or not is_groups(ev.terms[0]) or ev.terms[0].k != "proj" or ev.terms[0].a[1] != ".packet_groups":
                return
            k = ev.terms[1]
            if k.k == "agg" and k.a[0].endswith("TtlValue"):
                n["key"] += 1
                if field(k, "ttl") is not mk("proj", param("self"), ".ttl"):
                    eng.report("ttl", "a group does not get the decoder's time to live", st, ev.span)
                if tail(field(k, "last_touched")) != "now":
                    eng.report("ttl-start", "a group's time does not start when it is created", st, ev.span)
        r = Trace(want=lambda c: on_map(c) and c.name in ("entry", "insert"), on_event=on_event)
        ctx.run(r, b)


def is_largest(c):
    return c.local and c.name == "into_largest_nonce"


def deps(v, me):
    """what of a function's own arguments a term is made from: {(argument, field path)}, and fresh per-message values"""
    out = set()
    todo, seen = [v], set()
    while todo:
        x = todo.pop()
        if x in seen or x.k == "call" and tail(x) == "into_largest_nonce":
            continue
        seen.add(x)
        if x.k in ("proj", "param"):
            root, steps = fields_of(x)
            if root.k == "param":
                if root is not me:
                    out.add((root.a[0], tuple(s for s in steps if s[0] in ".@")))
                continue
        if x.k == "call" and tail(x) in ("new_encrypt_associated_data", "random", "gen", "encrypt", "sign", "now", "fill_bytes"):
            out.add(("fresh", (tail(x),)))
            continue
        todo.extend(kids(x))
    return out


def check_sender(ctx, n):
    """keys of what is kept, followed from the function that keeps it up to OutputProcessor::process"""
    f = ctx.f
    tops = ctx.anchor(f.fns("process", self_adt="OutputProcessor"), "OutputProcessor::process")
    grow = lambda c: on_map(c) and c.name in GROW
    fam = []
    ids = reach(f, [b.id for b in tops], virtual=False)
    for i in ids:
        b = f.body(i)
        if b is not None and b.kind == "fn" and b.id in f.raw and (path_match(b.self_adt, "Encoder") or path_match(b.self_adt, "OutputProcessor")):
            fam.append(b)
    keyed = {}                  # function -> argument parts its retained keys are made from
    names = {b.id: b for b in fam}
    rounds = 0
    changed = True
    while changed and rounds < 6:
        changed = False
        rounds += 1
        for b in fam:
            me = param("self")
            got = set(keyed.get(b.id, ()))
            pn = [param(b.locals[i][1] or "arg%d" % i) for i in range(1, b.argc + 1)]

            def on_event(eng, st, hist, ev, b=b, got=got, me=me):
                if ev.kind != "call":
                    return
                c = ev_callee.get(ev.span)
                if c is not None and c in names:
                    sub = keyed.get(c, ())
                    cb = names[c]
                    for nm, steps in sub:
                        if nm == "fresh":
                            continue
                        for i in range(1, cb.argc + 1):
                            if (cb.locals[i][1] or "arg%d" % i) == nm and i - 1 < len(ev.terms):
                                from absint import proj
                                t = ev.terms[i - 1]
                                for s_ in steps:
                                    t = proj(t, s_)
                                got.update(deps(t, me))
                    return
                if len(ev.terms) < 2 or ev.name not in GROW:
                    return
                root = ev.terms[0]
                while True:
                    root = fields_of(mut_base(root))[0]
                    if root.k in ("call", "pure") and args_of(root):
                        root = args_of(root)[0]
                        continue
                    if root.k == "mut":
                        continue
                    break
                if root is me:
                    if rounds == 1:
                        n["cache"] += 1
                    got.update(deps(ev.terms[1], me))
            ev_callee = {}

            def want(c):
                return grow(c) or c.rid in names

            def classify_opaque(c):
                return c.rid in names or is_largest(c)
            r = Trace(want=want, on_event=on_event, opaque=classify_opaque, wantbranch=lambda t: False)
            r.max_hist = 1
            orig = r.event

            def event(eng, st, call, orig=orig, ev_callee=ev_callee):
                if call.callee is not None:
                    ev_callee[call.span] = call.callee.rid
                return orig(eng, st, call)
            r.event = event
            ctx.run(r, b)
            if got != keyed.get(b.id, set()):
                keyed[b.id] = got
                changed = True
    for b in tops:
        for nm, steps in sorted(keyed.get(b.id, ()), key=str):
            ctx.violation("keyed", "what the sender keeps is keyed by a value of the message: %s%s" % (nm, "".join(steps)), b.span)
    for i, got in keyed.items():
        for nm, steps in got:
            if nm == "fresh":
                ctx.violation("keyed", "what the sender keeps is keyed by a value drawn for the message: %s" % "".join(steps), names[i].span)
    for b in f.fns("into_largest_nonce"):
        def on_ret(eng, st, hist, val):
            me = param("self")
            kn = st.ref.get(me)
            enc = any(v[0] == "is" and v[1] == "EncryptedWithNonce" for v in st.ref.values())
            bad = contains(val, lambda x: x.k == "proj" and any("Nonce" in s for s in fields_of(x)[1]) and fields_of(x)[0] is me) or \
                (contains(val, lambda x: x is me) and enc)
            if bad or val.k == "top":
                eng.report("largest", "the packet type used as a key still holds the message's nonce", st)
        r = Trace(want=lambda c: False, on_ret=on_ret)
        r.keep_all_refinements = True
        ctx.run(r, b)


def check(ctx):
    ctx.explanation = ("Every way out of InputProcessor::process after the group was found complete passes its removal; every removal is of a complete "
                       "group; every packet is stored after the expired groups were dropped, and exactly the expired ones are dropped; the keys of every "
                       "container the sender keeps do not depend on the message, its id or its nonce.")
    ctx.rules = ["removal post-dominates completeness", "removal implies completeness", "expiry dominates storage", "retain predicate",
                 "group keys carry the configured ttl", "key provenance of the sender's containers"]
    n = dict(verify=0, store=0, remove=0, done=0, retain=0, key=0, cache=0)
    check_process(ctx, n)
    check_retain(ctx, n)
    check_key(ctx, n)
    check_sender(ctx, n)
    n["ttl"] = check_ttl(ctx)
    wiring.check_wires(ctx, ("packet_ttl",))
    ctx.count("completeness tests", n["verify"], 1)
    ctx.count("packet stores", n["store"], 1)
    ctx.count("group removals", n["remove"], 1)
    ctx.count("ways out with a complete group", n["done"], 1)
    ctx.count("insertions into what a sender keeps", n["cache"], 1)
    ctx.count("group keys", n["key"], 1)
    ctx.oblige("traffic leaves nothing behind", True)
