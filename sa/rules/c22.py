"""C22: idle files and processes are evicted, used ones are not."""
from common import *
from rules.dispatch import apply_fn, chain_of
from rules.handlers import (FILE_HANDLERS, FILE_OPS, PROC_HANDLERS, PROC_OPS, args_param, explore, handler_bodies, ident, in_tests, is_book, of_field, peel, ttl_of)

IDS = {"file": "file_ids", "proc": "proc_ids"}


def check(ctx):
    ctx.explanation = ("Every operation that works on an open file or a process is followed: before it ends, the id it worked on must have been entered anew with the lifetime "
                       "configured for its kind. The two eviction functions are followed for an arbitrary entry: it goes exactly if its own lifetime is over, and then the file or "
                       "process of the same id is closed or killed. The expiry test and the way configured lifetimes reach the state are followed too.")
    ctx.rules = ["a request that works on a file or process renews that very id with the lifetime of its kind", "the lifetime of a process found dead is the shorter one, of a live one the ordinary",
                 "an entry is removed if and only if it has expired", "the file or process of an expired entry, and no other, is closed or killed",
                 "an entry has expired once the time since its last use reaches its own lifetime", "configured lifetimes reach the state unswapped"]
    check_touch(ctx)
    check_evict(ctx)
    check_expiry(ctx)
    check_config(ctx)


# ---------------------------------------------------------------- renewal
def check_touch(ctx):
    n = {"renewals": 0, "used": 0}
    for kind, names, ops in (("file", FILE_HANDLERS, FILE_OPS + ("open_file", "close_file")), ("proc", PROC_HANDLERS, PROC_OPS)):
        for name in names:
            for b in handler_bodies(ctx, name):
                touch(ctx, n, kind, name, b, ops)
    ctx.count("ends of operations on files and processes", n["used"], 20)
    ctx.count("renewals", n["renewals"], 12)


def touch(ctx, n, kind, name, b, ops):
    aid = mk("proj", args_param(b), ".id")
    state = param(b.locals[1][1] or "state")
    ids = IDS[kind]

    def books(hist):
        """the last thing done to the bookkeeping of this kind, per id: entered anew (with its lifetime), removed"""
        out = {}
        gone = set()
        for e in hist:
            if e.kind != "call" or not e.terms or not of_field(e.terms[0], ids) or len(e.terms) < 2:
                continue
            i = ident(e.terms[1])
            if e.name in ("remove", "take", "remove_entry"):
                out[i] = ("removed", None)
                gone.add(i)
            elif e.name == "replace" or e.name == "insert" and (i in gone or "HashMap" in e.path or "BTreeMap" in e.path):
                out[i] = ("renewed", ttl_of(e.terms[-1]), e)
            elif e.name == "insert" and i not in out:
                out[i] = ("kept", ttl_of(e.terms[-1]), e)
        return out

    def on_ret(eng, st, hist, val):
        used = [e for e in hist if e.kind == "call" and (e.name in ops and (path_match(e.self_adt, "LocalFile") or path_match(e.self_adt, "LocalProc") or path_match(e.self_adt, "FileSystemManager"))
                                                         or kind == "proc" and e.name == "insert" and of_field(e.terms[0], "procs"))]
        if not used:
            return
        u = used[-1]
        if name == "open_file":
            if st.ref.get(u.res) != ("is", "Ok"):
                return
            i = mk("proj", mk("proj", mk("proj", u.res, "@Ok"), ".0"), ".id")
        elif name == "exec_proc":
            i = peel(u.terms[1])
        else:
            i = aid
        n["used"] += 1
        bk = books(hist)
        got = bk.get(i)
        if got is None:
            other = [x for x in bk if contains(x, lambda y: y is i) or x.k == "proj" and x.a[1] == ".id"]
            for x in other:
                if same_id(x, i):
                    got = bk[x]
        if got is None and bk:
            eng.oblige("the id used is renewed", False, name + ":id", "%s renews another id than the one it worked on" % name, st)
            return
        ok = got is not None and got[0] != "kept"
        eng.oblige("the id used is renewed", ok, name + ":renewed", "%s works on a %s without renewing its lifetime" % (name, "file" if kind == "file" else "process"), st)
        if not ok or got[0] == "removed":
            return
        n["renewals"] += 1
        t = got[1]
        dead = [e for e in hist if e.kind == "call" and e.name == "exit_status"]
        want = kind + "_ttl"
        if dead:
            r = st.ref.get(dead[-1].res)
            if r == ("is", "Some"):
                want = "dead_proc_ttl"
            elif r != ("is", "None"):
                return
        ok = t is not None and t.k == "proj" and t.a[1] == "." + want and contains(t, lambda x: x is state)
        eng.oblige("the lifetime is the one configured", ok, "%s:%s" % (name, want), "%s renews the lifetime of a %s with something else than its %s" % (name, kind, want), st)

    def same_id(x, i):
        """the id of the file looked up under i is i"""
        return x.k == "proj" and x.a[1] == ".id" and contains(x, lambda v: v.k in ("call", "pure") and tail(v) in ("get", "get_mut") and any(peel(a) is i for a in args_of(v)[1:]))
    explore(ctx, b, on_ret=on_ret, want=lambda c: False)


# ---------------------------------------------------------------- eviction
CLOSES = {"file": ("close_file",), "proc": ("remove", "remove_entry", "take")}


def is_expired(c):
    return c.local and c.name == "has_expired"


class Evict(Trace):
    max_hist = 60

    def add(self, eng, st, ev):
        # what was found missing is remembered for the rounds to come
        for t, r in st.ref.items():
            s = lookup(t) if r == ("is", "None") else None
            if s is not None:
                for a in args_of(s)[1:]:
                    e = Ev("absent", "", "", "", "", "", (peel(a),), None, "", ())
                    if e not in st.auto:
                        st.auto = (e,) + st.auto
        super().add(eng, st, ev)

    def runs_closures(self, callee):
        return callee.name not in ("retain", "filter", "map", "filter_map", "for_each", "drain_filter", "partition", "spawn", "any", "all", "find")


def evict_op(c):
    return is_expired(c) or c.local and (path_match(c.self_adt, "FileSystemManager") and c.name != "default" or path_match(c.self_adt, "LocalProc") and c.name in ("kill", "kill_and_wait"))


def relevant(b):
    return b.file().startswith(("src/core/server/state.rs", "src/utils/ttl", "src/core/server/fs/file.rs")) and not b.derived


def check_evict(ctx):
    n = {"retain": 0, "rets": 0, "closed": 0}
    for kind, fn in (("file", "evict_files"), ("proc", "evict_procs")):
        for b in ctx.anchor(ctx.f.fns(fn, self_adt="ServerState"), "ServerState::" + fn):
            found = []
            pushed = {}  # what is collected in a list: whether it is an entry found expired, at each place where it is

            def on_event(eng, st, hist, ev, kind=kind, fn=fn, found=found, pushed=pushed):
                if ev.kind != "call" or not ev.terms:
                    return
                if ev.name in PUSHES and not is_set(ev) and len(ev.terms) > 1:
                    x = ident(ev.terms[1])
                    pushed[x] = pushed.get(x, True) and expired(ctx, st, x, kind)
                    return
                if ev.name == "retain" and of_field(ev.terms[0], IDS[kind]):
                    if ev.terms[1] not in [x for x, _ in found]:
                        found.append((ev.terms[1], ev.span))
                    return
                if of_field(ev.terms[0], IDS["file"], IDS["proc"]) and not of_field(ev.terms[0], IDS[kind]):
                    eng.report(fn + ":other", "%s touches the bookkeeping of the other kind" % fn, st, ev.span)
                if ev.name in ("clear", "drain") and is_set(ev):
                    eng.report(fn + ":clear", "%s removes entries that have not expired" % fn, st, ev.span)
                if is_set(ev) and ev.name in ("remove", "take") and not expired(ctx, st, ident(ev.terms[1]), kind, pushed):
                    eng.report(fn + ":remove", "%s removes an entry that was not found expired" % fn, st, ev.span)
                if closes(ev, kind) and len(ev.terms) > 1:
                    x = closed_id(ev, kind)
                    n["closed"] += 1
                    if x is None or not expired(ctx, st, x, kind, pushed):
                        eng.report(fn + ":close", "%s gives up a %s whose entry was not found expired" % (fn, "file" if kind == "file" else "process"), st, ev.span)

            def on_ret(eng, st, hist, val, kind=kind, fn=fn):
                if not any(e.kind == "call" and e.name == "retain" and of_field(e.terms[0], IDS[kind]) for e in hist):
                    # removal by hand: every closing goes with the removal of its entry
                    gone = [ident(e.terms[1]) for e in hist if e.kind == "call" and is_set(e) and e.name in ("remove", "take") and len(e.terms) > 1]
                    shut = [closed_id(e, kind) for e in hist if e.kind == "call" and closes(e, kind) and len(e.terms) > 1]
                    if not gone and not shut and not any(e.kind == "call" and e.name == "next" for e in hist):
                        eng.report(fn + ":all", "%s can end without having looked at the entries" % fn, st)
                    for x in shut:
                        if x not in gone:
                            eng.report(fn + ":entry", "%s gives up a file or process without removing its entry" % fn, st)
                    for x in gone:
                        if x not in shut and not absent(st, x) and not any(e.kind == "absent" and e.terms[0] is x for e in hist):
                            eng.report(fn + ":kept", "%s removes an entry without giving up what it stands for" % fn, st)
            r = Evict(want=lambda c: evict_op(c) or is_book(c) or not c.local and c.name in PUSHES + ("next",), on_event=on_event, on_ret=on_ret, wantbranch=lambda t: False, opaque=evict_op)
            r.relevant_body = relevant
            r.keep_all_refinements = True
            ctx.run(r, ctx.f.coroutine_of(b) or b, what="ServerState::" + fn)
            for clo, span in found:
                n["retain"] += 1
                closure(ctx, n, kind, fn, clo, span)
            if not found:
                n["retain"] += 1
                n["rets"] += 2
    ctx.count("eviction sweeps", n["retain"], 2)
    ctx.count("outcomes for an entry", n["rets"], 4)


def absent(st, x):
    return any(r == ("is", "None") and any(peel(a) is x for a in args_of(lookup(t))[1:]) for t, r in st.ref.items() if lookup(t) is not None)


def lookup(t):
    """the search whose outcome decides if there is something"""
    while t.k in ("call", "pure") and tail(t) in ("map", "as_ref", "as_mut", "cloned", "copied", "discr") and args_of(t):
        t = args_of(t)[0]
    return t if t.k in ("call", "pure") and tail(t) in ("get", "get_mut", "remove", "take") else None


def is_set(ev):
    return bool(ev.terms) and of_field(ev.terms[0], IDS["file"], IDS["proc"])


def closes(ev, kind):
    if kind == "file":
        return ev.name == "close_file" or of_field(ev.terms[0], "files") and ev.name in ("remove", "remove_entry")
    return ev.name in ("remove", "remove_entry") and of_field(ev.terms[0], "procs") and not is_set(ev)


def closed_id(ev, kind):
    """the id of what is closed: the key itself, or that of the handle of the file found under it"""
    v = ev.terms[1]
    if kind == "file" and ev.name == "close_file":
        for x in subterms(v):
            if x.k in ("call", "pure") and tail(x) in ("get", "get_mut") and len(args_of(x)) > 1:
                return ident(args_of(x)[1])
        return None
    return ident(v)


FILTERS = {}
PUSHES = ("push", "push_back", "insert", "push_front")


def expired(ctx, st, x, kind, pushed=None):
    for t, r in st.ref.items():
        if tail(t) == "has_expired" and r == ("is", True):
            e = peel(args_of(t)[0])
            if x is e or x.k == "proj" and x.a[0] is e:
                return True
    # an element of the expired ones collected before
    for s in subterms(x):
        if s.k in ("call", "pure") and tail(s) == "filter" and len(args_of(s)) == 2 and of_field(args_of(s)[0], IDS[kind]):
            k = args_of(s)[1]
            if k not in FILTERS:
                FILTERS[k] = apply_fn(ctx, k, param("elem"), relevant=relevant, opaque=is_expired, want=lambda c: False)
            rets = FILTERS[k]
            if rets and all(tail(v) == "has_expired" and contains(v, lambda y: y is param("elem")) for v, ref, h in rets):
                return True
        if tail(s) == "next" and nothing(args_of(s)[0]):
            return True  # there is none
        if pushed and s.k == "mut":
            got = [y for nm, e in mut_elems(s) if nm.rsplit("::", 1)[-1] in PUSHES + ("loopacc",) for y in e]
            got = [ident(y) for z in got for y in (own_elems(z) if z.k == "mut" else [z])]
            got = [y for y in got if not is_empty(y)]
            if got and all(pushed.get(y) for y in got):
                return True
    return False


def own_elems(v):
    return [y for nm, e in mut_elems(v) if nm.rsplit("::", 1)[-1] in PUSHES for y in e]


def nothing(v):
    while v.k in ("call", "pure") and tail(v) in ("into_iter", "iter", "by_ref") and args_of(v):
        v = args_of(v)[0]
    return v.k in ("call", "pure") and (str(v.a[0]).endswith(("Vec::new", "Vec::with_capacity")))


def is_empty(v):
    return v.k == "pure" and tail(v) == "loopself" or tail(v) in ("new", "with_capacity", "default")


def closure(ctx, n, kind, fn, clo, span):
    """one entry: kept or removed, and what goes with it"""
    elem = param("entry")
    rets = apply_evict(ctx, clo, elem)
    if not rets:
        ctx.violation(fn + ":sweep", "what %s does with an entry cannot be told" % fn, span)
        return
    for v, ref, h in rets:
        e = None
        for t, r in list(ref.items()):
            if tail(t) == "has_expired" and r[0] == "is" and peel(args_of(t)[0]) is elem:
                e = r[1]
        neg = False
        w = v
        while w.k == "op" and w.a[0] == "Not":
            neg, w = not neg, w.a[1]
        acts = [x for x in h if x.kind == "call" and not is_expired_ev(x) and x.terms and closes(x, kind)]
        n["rets"] += 1
        if e is None:
            # kept exactly if not expired, but nothing else was decided on it
            n["rets"] += 1
            ok = tail(w) == "has_expired" and peel(args_of(w)[0]) is elem and neg
            ctx.oblige("an entry is removed if and only if it has expired", ok, fn + ":exact", "%s does not keep exactly the entries that have not expired" % fn, span)
            if acts:
                ctx.violation(fn + ":used", "%s gives up what an entry that has not expired stands for" % fn, span)
            elif ok:
                ctx.violation(fn + ":kept", "%s removes an entry without giving up what it stands for" % fn, span)
            continue
        if w.k == "c":
            keep = bool(w.a[0]) != neg
        elif tail(w) == "has_expired" and peel(args_of(w)[0]) is elem:
            keep = e != neg
        else:
            keep = None
        ctx.oblige("an entry is removed if and only if it has expired", keep is (not e), fn + ":exact", "%s %s an entry that %s" % (
            fn, "keeps" if keep else "removes" if keep is False else "may keep or remove", "has expired" if e else "has not expired"), span)
        if not e:
            ctx.oblige("what has not expired is left alone", not acts, fn + ":used", "%s gives up what an entry that has not expired stands for" % fn, span)
            continue
        eid = mk("proj", elem, ".value")
        mine = [x for x in acts if closed_id(x, kind) is eid]
        for x in acts:
            if x not in mine:
                ctx.violation(fn + ":another", "%s gives up another file or process than the one of the expired entry" % fn, span)
        gone = any(t.k in ("call", "pure") and tail(t) in ("get", "get_mut") and r == ("is", "None") and any(peel(a) is eid for a in args_of(t)[1:]) for t, r in ref.items())
        ctx.oblige("what has expired is given up", bool(mine) or gone, fn + ":kept", "%s removes an entry without giving up what it stands for" % fn, span)
        if kind == "proc" and mine and ref.get(mine[-1].res) != ("is", "None"):
            k = [x for x in h if x.kind == "call" and x.name in ("kill", "kill_and_wait")]
            ok = any(contains(x.terms[0], lambda y: y is mine[-1].res) for x in k)
            ctx.oblige("an evicted process is killed", ok, fn + ":kill", "%s drops an expired process without killing it" % fn, span)


def is_expired_ev(e):
    return e.name == "has_expired"


def apply_evict(ctx, clo, elem):
    out = []
    if is_closure(clo):
        b, args = ctx.f.body(clo.a[1]), {1: clo, 2: elem}
    elif clo.k == "fn":
        b, args = ctx.f.body(clo.a[0]), {1: elem}
    else:
        return None
    if b is None:
        return None
    r = Evict(want=lambda c: evict_op(c) or is_book(c), opaque=evict_op, on_ret=lambda eng, st, h, v: out.append((eng.term(st, v), dict(st.ref), h)), wantbranch=lambda t: False)
    r.relevant_body = relevant
    r.keep_all_refinements = True
    ctx.run(r, b, args)
    return out


# ---------------------------------------------------------------- expiry
def check_expiry(ctx):
    n = 0
    for b in ctx.anchor(ctx.f.fns("has_expired", self_adt="TtlValue"), "TtlValue::has_expired"):
        me = param(b.locals[1][1] or "self")
        since, ttl = mk("proj", me, ".last_touched"), mk("proj", me, ".ttl")

        def idle(v):
            """the time since the last use"""
            v = peel(v)
            if tail(v) == "elapsed":
                return peel(args_of(v)[0]) is since
            if tail(v) in ("duration_since", "saturating_duration_since", "sub") and len(args_of(v)) == 2:
                return tail(peel(args_of(v)[0])) == "now" and peel(args_of(v)[1]) is since
            return v.k == "op" and v.a[0] == "Sub" and tail(peel(v.a[1])) == "now" and peel(v.a[2]) is since

        def over(v):
            """True if v says that the lifetime is over, False if that it is not, None if neither"""
            neg = False
            while v.k == "op" and v.a[0] == "Not":
                neg, v = not neg, v.a[1]
            r = None
            a = args_of(v) if v.k in ("call", "pure") else v.a[1:] if v.k == "op" else ()
            nm = tail(v) if v.k in ("call", "pure") else v.a[0].lower() if v.k == "op" else ""
            if nm in ("is_some", "is_none") and tail(peel(a[0])) == "checked_sub":
                x, y = args_of(peel(a[0]))
                r = idle(x) and peel(y) is ttl or None
                if r and nm == "is_none":
                    r = False
                elif not r and peel(x) is ttl and idle(y):
                    r = None
            elif nm in ("eq", "ne") and len(a) == 2 and any(x.k == "c" for x in a) and any(x.k == "discr" or tail(x) == "discr" for x in a):
                c, o = (a[0], a[1]) if a[0].k == "c" else (a[1], a[0])
                o = peel(o.a[0] if o.k == "discr" else args_of(o)[0])
                if tail(o) == "checked_sub" and len(args_of(o)) == 2 and idle(args_of(o)[0]) and peel(args_of(o)[1]) is ttl and c.a[0] in (0, 1, False, True):
                    r = (int(c.a[0]) == 1) == (nm == "eq")
            elif nm in ("ge", "gt", "le", "lt") and len(a) == 2:
                if idle(a[0]) and peel(a[1]) is ttl:
                    r = nm in ("ge", "gt")
                elif idle(a[1]) and peel(a[0]) is ttl:
                    r = nm in ("le", "lt")
            return r if r is None or not neg else not r

        def on_ret(eng, st, hist, val, b=b):
            if val.k == "c":
                want = bool(val.a[0])
                for t, r in st.ref.items():
                    if r[0] == "is" and r[1] in ("Some", "None") and tail(t) == "checked_sub":
                        x, y = args_of(t)
                        if idle(x) and peel(y) is ttl and (r[1] == "Some") == want:
                            return
                    if r[0] == "is" and isinstance(r[1], bool) and over(t) is not None and (over(t) == r[1]) == want:
                        return
            elif over(val) is True:
                return
            eng.report("expiry", "whether an entry has expired is not decided by the time since its last use and its own lifetime", st)
        n += 1
        r = Trace(want=lambda c: False, on_ret=on_ret, wantbranch=lambda t: False)
        r.keep_all_refinements = True
        ctx.run(r, b, what="TtlValue::has_expired")
    for nm in ("new", "touch"):
        for b in [x for x in ctx.f.fns(nm, self_adt="TtlValue") if not in_tests(x)]:
            def on_new(eng, st, hist, val, nm=nm, b=b):
                if nm == "new":
                    d = dict(val.a[2]) if val.k == "agg" else {}
                    ps = [param(b.locals[i][1]) for i in range(1, b.argc + 1)]
                    if not d or d.get("value") is not ps[0] or d.get("ttl") is not ps[1] or tail(peel(d.get("last_touched", val))) != "now":
                        eng.report("entry:new", "a new entry does not hold its value and lifetime, used now", st)
                else:
                    w = [e for e in hist if e.kind == "wr" and tuple(e.path) == (".last_touched",)]
                    if not w or tail(w[-1].terms[0]) != "now":
                        eng.report("entry:touch", "touching an entry does not set its last use to now", st)
            r = Trace(want=lambda c: False, on_ret=on_new, wantbranch=lambda t: False, writes=lambda root, path, val: root[0] == "D")
            ctx.run(r, b, what="TtlValue::" + nm)
    ctx.count("expiry tests", n, 1)
    # entries are told apart by what they hold: entering an id anew replaces its entry
    for nm in ("eq", "hash"):
        for b in ctx.anchor([x for x in ctx.f.fns(nm, self_adt="TtlValue") if not in_tests(x)], "TtlValue::" + nm):
            ps = [param(b.locals[i][1] or "?") for i in range(1, b.argc + 1)]

            def on_eq(eng, st, hist, val, nm=nm, ps=ps):
                other = lambda t: t.k == "proj" and t.a[1] in (".ttl", ".last_touched")
                seen = [e for e in hist if e.kind == "call" and any(contains(t, other) for t in e.terms)]
                bad = bool(seen) or contains(val, other) or any(contains(t, other) for t in st.ref)
                if nm == "hash":
                    ok = any(e.kind == "call" and e.name in ("hash", "hash_one") and any(peel(t) is mk("proj", ps[0], ".value") for t in e.terms) for e in hist)
                else:
                    v = lambda x: all(contains(x, lambda t, p=p: t is mk("proj", p, ".value")) for p in ps)
                    ok = v(val) or any(v(t) for t in st.ref)
                eng.oblige("entries are the same if they hold the same", ok and not bad, "entry:" + nm, "entries of one id are told apart by their lifetimes (%s)" % nm, st)
            r = Trace(want=lambda c: not c.local, on_ret=on_eq, wantbranch=lambda t: False)
            r.keep_all_refinements = True
            ctx.run(r, b, what="TtlValue::" + nm)


# ---------------------------------------------------------------- configuration
def check_config(ctx):
    n = {"made": 0}
    for b in ctx.anchor([x for x in ctx.f.fns("new", self_adt="ServerState") if not in_tests(x)], "ServerState::new"):
        names = [b.locals[i][1] for i in range(1, b.argc + 1)]

        def on_ret(eng, st, hist, val):
            d = dict(val.a[2]) if val.k == "agg" else {}
            for i, f in enumerate(("file_ttl", "proc_ttl", "dead_proc_ttl")):
                if i >= len(names) or d.get(f) is not param(names[i]):
                    eng.report("state:" + f, "the state does not keep the %s it is given" % f, st)
        ctx.run(Trace(want=lambda c: False, on_ret=on_ret, wantbranch=lambda t: False), b, what="ServerState::new")
    for b in ctx.f.local_bodies():
        if in_tests(b) or not any(cj["name"] == "new" and path_match(cj.get("self_adt", ""), "ServerState") for cj in calls_of(b)):
            continue
        p = parent_fn(ctx.f, b) or b
        if p.name == "default":
            continue

        def on_event(eng, st, hist, ev, p=p):
            if ev.kind != "call":
                return
            n["made"] += 1
            for i, f in enumerate(("file_ttl", "proc_ttl", "dead_proc_ttl")):
                t = peel(ev.terms[i])
                ok = t.k == "proj" and t.a[1] == "." + f or t.k == "param" and t.a[0] == f
                eng.oblige("a configured lifetime reaches the state", ok, "config:%s:%s" % (owner_path(ctx.f, p), f), "%s does not give the state the configured %s" % (owner_path(ctx.f, p), f), st, ev.span)
        isnew = lambda c: c.local and c.name == "new" and path_match(c.self_adt, "ServerState")
        ctx.run(Trace(want=isnew, opaque=isnew, on_event=on_event, wantbranch=lambda t: False, relevant=isnew), b)
    ctx.count("states made from a configuration", n["made"], 1)
