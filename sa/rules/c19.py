"""C19: an outdated file signature never touches the file."""
from common import *

HARMLESS = {"metadata", "symlink_metadata", "canonicalize", "read_link", "new", "as_ref", "deref", "borrow", "clone", "fmt", "is_file", "is_dir", "try_exists"}
MUTATES = {"set_len", "write_all", "write", "write_buf", "write_vectored", "write_all_buf", "rename", "remove_file", "copy", "hard_link", "remove_dir", "remove_dir_all",
           "write_u8", "set_permissions", "shutdown", "poll_write"}
CONTENT = {"set_len", "write_all", "write", "write_buf", "write_vectored", "write_all_buf"}
SAME = {"clone", "cloned", "to_owned", "copied", "borrow", "as_ref", "from", "into", "deref", "borrow_mut", "as_mut"}
OPS = ("rename", "remove", "read_all", "write_all")


def peel(v):
    while v.k in ("call", "pure") and tail(v) in SAME and args_of(v):
        v = args_of(v)[0]
    return v


def random(v):
    v = unconv(v)
    return v.k == "call" and tail(v) in ("next_u32", "next_u64", "gen", "random", "sample", "gen_range")


def equality(st, one, other):
    """is a value satisfying `one` known equal (True) or unequal (False) to one satisfying `other`?"""
    out = None
    for t, r in st.ref.items():
        if r[0] != "is" or r[1] not in (True, False):
            continue
        if t.k == "op" and t.a[0] in ("Eq", "Ne") and len(t.a) == 3:
            x, y, same = t.a[1], t.a[2], t.a[0] == "Eq"
        elif t.k in ("call", "pure") and tail(t) in ("eq", "ne") and len(args_of(t)) == 2:
            x, y, same = args_of(t)[0], args_of(t)[1], tail(t) == "eq"
        else:
            continue
        x, y = peel(x), peel(y)
        if one(x) and other(y) or one(y) and other(x):
            v = r[1] == same
            if out is not None and out != v:
                return None
            out = v
    return out


def check(ctx):
    ctx.explanation = ("Every method of an open file is followed: anything that reaches the disk, the open descriptor, the stored path or the stored signature must come "
                       "after the presented signature was found equal to the stored one, and anything that changes the file must leave a fresh random signature behind. "
                       "The handlers must present the signature of the request to the file the request names, and answer with the signature the file has then.")
    ctx.rules = ["nothing is done to an open file before the presented signature was found equal to the current one", "a differing signature ends in a signature mismatch",
                 "after a rename, removal or write that took effect the stored signature is a fresh random number, before anything else can fail", "reading stores no signature",
                 "a file is only taken out of the open files under its current signature", "a handler presents the signature and id of its request, and reports the current signature"]
    check_file(ctx)
    check_close(ctx)
    check_handlers(ctx)


def in_tests(b):
    return "::tests::" in b.path


def check_file(ctx):
    bodies = [b for b in ctx.f.local_bodies() if path_match(b.self_adt, "LocalFile") and not in_tests(b) and b.argc and b.locals[1][1] == "self"
              and entry_of_file(ctx.f, b)]
    ctx.anchor([b for b in bodies if b.name in OPS], "LocalFile::{%s}" % ",".join(OPS))
    n = {"effects": 0, "mutating": 0, "refused": 0}
    for b in bodies:
        names = [b.locals[i][1] for i in range(2, b.argc + 1)]
        me = mk("param", "self")
        sig = mk("proj", me, ".sig")
        mut = {}
        what = "LocalFile::" + b.name

        def presented(v, names=names):
            return v.k == "param" and v.a[0] in names or v.k == "proj" and v.a[1] == ".sig" and v.a[0].k == "param" and v.a[0].a[0] in names

        def state(st):
            return equality(st, lambda v: v is sig, presented)

        def effect(ev):
            if ev.kind != "call" or ev.name in HARMLESS:
                return False
            return ev.path.startswith(("tokio::fs", "std::fs", "fs::")) and "OpenOptions" not in ev.path or bool(ev.terms) and touches(ev.terms[0])

        def touches(t):
            return contains(t, lambda v: v.k == "proj" and v.a[1] == ".file" and v.a[0] is me)

        def fresh(hist):
            out = None
            for e in hist:
                if e.kind == "wr" and tuple(e.path) == (".sig",):
                    out = e.terms[0]
            return out

        def done(st, hist, ns):
            """did one of these take effect, as far as is known?"""
            for e in hist:
                if e.kind == "call" and e.name in ns and effect(e):
                    r = st.ref.get(e.res)
                    if r is None or r != ("is", "Err"):
                        return e
            return None

        def finished(st, hist, ns):
            for e in hist:
                if e.kind == "call" and e.name in ns and effect(e) and st.ref.get(e.res) == ("is", "Ok"):
                    return e
            return None

        def on_event(eng, st, hist, ev, b=b, what=what):
            k = state(st)
            if effect(ev):
                n["effects"] += 1
                eng.oblige("effects come after the comparison", k is True, "%s:%s" % (b.name, ev.name), "%s reaches %s without the presented signature having been found current" % (
                    what, ev.short), st, ev.span)
                if ev.name in MUTATES:
                    n["mutating"] += 1
                    mut[b.name] = True
            if ev.kind == "wr" and tuple(ev.path)[:1] in ((".sig",), (".path",), (".id",)):
                eng.oblige("stores come after the comparison", k is True, "%s:wr%s" % (b.name, ev.path[0]), "%s stores its %s without the presented signature having been found current" % (
                    what, ev.path[0][1:]), st, ev.span)
                if ev.path[0] == ".sig" and not random(ev.terms[0]):
                    eng.report("%s:random" % b.name, "%s takes a signature that is not a fresh random number" % what, st, ev.span)
                if ev.path[0] == ".sig" and not any(e.kind == "call" and e.name in MUTATES and effect(e) for e in hist) and not mutates_later(ctx, b):
                    eng.report("%s:reads" % b.name, "%s changes the signature without changing the file" % what, st, ev.span)
            if ev.kind in ("call", "aw") and fresh(hist) is None:
                e = finished(st, hist, CONTENT)
                if e is not None and (ev.kind == "aw" or effect(ev)):
                    eng.report("%s:early" % b.name, "%s goes on after %s while the old signature is still in place" % (what, e.short), st, ev.span)

        def on_ret(eng, st, hist, val, b=b, what=what):
            k = state(st)
            if k is False:
                n["refused"] += 1
                x = dict(val.a[2]).get("0") if val.k == "agg" and val.a[1] == "Err" else None
                if x is None or not (x.k == "agg" and x.a[1] == "SigMismatch"):
                    eng.report("%s:mismatch" % b.name, "%s does not report a signature mismatch for an outdated signature" % what, st)
                return
            if val.k == "agg" and val.a[1] == "Err":
                x = dict(val.a[2]).get("0")
                if x is not None and x.k == "agg" and x.a[1] == "SigMismatch" and k is True:
                    eng.report("%s:false" % b.name, "%s reports a signature mismatch for the current signature" % what, st)
            e = done(st, hist, MUTATES) if not (val.k == "agg" and val.a[1] == "Err") else finished(st, hist, MUTATES)
            f = fresh(hist)
            if e is not None:
                eng.oblige("a changed file has a new signature", f is not None, "%s:stale" % b.name, "%s ends after %s with the old signature still in place" % (what, e.short), st)
            if val.k == "agg" and val.a[1] == "Ok" and f is not None:
                x = dict(val.a[2]).get("0")
                if x is not None and "u32" in b_ret(ctx, b) and unconv(x) is not unconv(f):
                    eng.report("%s:told" % b.name, "%s hands out a signature that is not the one stored" % what, st)
        co = ctx.f.coroutine_of(b)
        r = Trace(want=lambda c: not c.local, on_event=on_event, on_ret=on_ret, wantbranch=lambda t: False,
                  writes=lambda root, path, val: root[0] == "D" and str(path[0] if path else "") in (".sig", ".path", ".id"))
        r.relevant_body = lambda x: x.file() == b.file()
        r.keep_all_refinements = True
        ctx.run(r, co or b, what=what)
    ctx.count("effects on open files", n["effects"], 7)
    ctx.count("mutating effects on open files", n["mutating"], 4)
    ctx.count("refusals", n["refused"], 4)
    news = [b for b in ctx.f.fns("new", self_adt="LocalFile") if not in_tests(b)]
    for b in ctx.anchor(news, "LocalFile::new"):
        def on_new(eng, st, hist, val):
            f = dict(val.a[2]) if val.k == "agg" else {}
            for x in ("id", "sig"):
                if x not in f or not random(f[x]):
                    eng.report("new:" + x, "a newly opened file gets no fresh random %s" % x, st)
            if f.get("id") is not None and f.get("id") is f.get("sig"):
                eng.report("new:same", "a newly opened file shares its id and signature", st)
        r = Trace(want=lambda c: False, on_ret=on_new, wantbranch=lambda t: False)
        ctx.run(r, b, what="LocalFile::new")


def b_ret(ctx, b):
    co = ctx.f.coroutine_of(b)
    return (co or b).locals[0][0]


_later = {}


def mutates_later(ctx, b):
    """does the method change the file at all?"""
    k = (id(ctx), b.id if hasattr(b, "id") else b.path)
    if k not in _later:
        found = []

        def on_event(eng, st, hist, ev):
            if ev.kind == "call" and ev.name in MUTATES:
                found.append(ev)
        r = Trace(want=lambda c: not c.local and c.name in MUTATES, on_event=on_event, wantbranch=lambda t: False)
        ctx.run(r, ctx.f.coroutine_of(b) or b)
        _later[k] = bool(found)
    return _later[k]


def of_files(t, key):
    """does the term look a file up among the open ones by this key?"""
    return contains(t, lambda v: v.k in ("call", "pure") and tail(v) in ("get", "get_mut", "entry", "get_key_value", "remove", "index", "get_or_insert", "remove_entry", "contains_key")
                    and any(peel(a) is key for a in args_of(v)[1:]))


def check_close(ctx):
    n = {"removed": 0}
    for b in ctx.anchor(ctx.f.fns("close_file", self_adt="FileSystemManager"), "FileSystemManager::close_file"):
        h = mk("param", b.locals[2][1] or "handle")
        hid, hsig = mk("proj", h, ".id"), mk("proj", h, ".sig")

        def known(st):
            return equality(st, lambda v: v is hsig, lambda v: v.k == "proj" and v.a[1] == ".sig" and of_files(v, hid))

        def on_event(eng, st, hist, ev):
            if ev.kind != "call" or not ev.terms:
                return
            if ev.name in ("remove", "remove_entry", "clear", "retain", "drain", "insert", "replace_entry", "take") and contains(ev.terms[0], lambda v: v.k == "proj" and v.a[1] == ".files"):
                n["removed"] += 1
                eng.oblige("a file is closed under its current signature", known(st) is True, "close:" + ev.name,
                           "a file is taken out of the open files without the presented signature having been found current", st, ev.span)
                if not (of_files(ev.terms[0], hid) or any(peel(a) is hid for a in ev.terms[1:])):
                    eng.report("close:other", "another file than the one named is closed", st, ev.span)

        def on_ret(eng, st, hist, val):
            if val.k == "agg" and val.a[1] == "Ok" and known(st) is not True:
                eng.report("close:ok", "closing succeeds without the presented signature having been found current", st)
            gone = any(r == ("is", "None") and of_files(t, hid) for t, r in st.ref.items())
            if known(st) is True and not gone and not (val.k == "agg" and val.a[1] == "Ok") and not of_files(val, hid):
                eng.report("close:refused", "closing is refused although the presented signature is current", st)
        r = Trace(want=lambda c: not c.local, on_event=on_event, on_ret=on_ret, wantbranch=lambda t: False)
        r.keep_all_refinements = True
        ctx.run(r, b, what="FileSystemManager::close_file")
    ctx.count("removals from the open files", n["removed"], 1)


def check_handlers(ctx):
    n = {"ops": 0, "told": 0}
    for name in ("rename_file", "remove_file", "read_file", "write_file", "close_file"):
        bs = [b for b in ctx.f.fns(name) if "::handler::" in b.path and not in_tests(b)]
        for b in ctx.anchor(bs, "handler::" + name):
            args = mk("param", b.locals[2][1] or "args")
            aid, asig = mk("proj", args, ".id"), mk("proj", args, ".sig")

            def is_op(c):
                return c.local and (c.name in OPS and path_match(c.self_adt, "LocalFile") or c.name == "close_file" and path_match(c.self_adt, "FileSystemManager"))

            def own(t):
                return any(v.k in ("call", "pure") and tail(v) in ("get", "get_mut", "entry", "values_mut", "iter_mut") and any(peel(x) is aid for x in args_of(v)[1:]) for v in subterms(t))

            def on_event(eng, st, hist, ev, name=name):
                if ev.kind != "call" or ev.name not in OPS + ("close_file",):
                    return
                n["ops"] += 1
                if ev.name == "close_file":
                    h = ev.terms[1]
                    f = dict(h.a[2]) if h.k == "agg" else {}
                    hi, hs = f.get("id", h), f.get("sig", h)
                    mine = peel(hi) is aid and peel(hs) is asig
                    after = any(e.kind == "call" and e.name in OPS for e in hist) and hs.k == "proj" and hs.a[1] == ".sig" and own(hs) and (hi.k == "proj" and hi.a[1] == ".id" and own(hi) or peel(hi) is aid)
                    eng.oblige("a handler presents its own signature", mine or after, name + ":close", "%s closes a file under another id or signature than that of its request" % name, st, ev.span)
                    return
                eng.oblige("a handler presents its own signature", peel(ev.terms[1]) is asig, name + ":sig", "%s presents another signature than that of its request" % name, st, ev.span)
                eng.oblige("a handler works on its own file", own(ev.terms[0]), name + ":file", "%s works on another file than the one of its request" % name, st, ev.span)

            def on_ret(eng, st, hist, val, name=name):
                ops = [e for e in hist if e.kind == "call" and e.name in OPS]
                if not ops or val.k != "agg":
                    return
                op = ops[-1]
                r = st.ref.get(op.res)
                inner = dict(val.a[2]).get("0")
                f = dict(inner.a[2]) if inner is not None and inner.k == "agg" else {}
                if r == ("is", "Err") and st.ref.get(mk("proj", mk("proj", op.res, "@Err"), ".0")) == ("is", "SigMismatch"):
                    if val.a[1] != "Err" or inner.k != "agg" or inner.a[1] != "SigMismatch":
                        eng.report(name + ":mismatch", "%s does not answer an outdated signature with a signature mismatch" % name, st)
                        return
                    i = peel(f.get("id", inner))
                    if i is not aid and not (i.k == "proj" and i.a[1] == ".id" and own(i)):
                        eng.report(name + ":mismatch-id", "%s reports a signature mismatch for another file" % name, st)
                if "sig" in f:
                    n["told"] += 1
                    s = unconv(peel(f["sig"]))
                    cur = s.k == "proj" and s.a[1] == ".sig" and s.a[0].k == "mut" and own(s)
                    told = s.k == "proj" and contains(s, lambda v: v is op.res) and op.name == "rename"
                    unchanged = s.k == "proj" and s.a[1] == ".sig" and own(s) and r == ("is", "Err") and f.get("id") is not None
                    eng.oblige("the current signature is reported", cur or told or unchanged, name + ":told", "%s reports a signature that is not the file's current one" % name, st)
            r = Trace(want=is_op, on_event=on_event, on_ret=on_ret, wantbranch=lambda t: False, opaque=is_op)
            r.keep_all_refinements = True
            ctx.run(r, ctx.f.coroutine_of(b) or b, what="handler::" + name)
    ctx.count("operations on open files by handlers", n["ops"], 6)
    ctx.count("signatures reported", n["told"], 6)
