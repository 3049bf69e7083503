"""C21: opening a file grants what was asked and never takes away."""
import itertools
from common import *
from rules.dispatch import apply_fn
from rules.c19 import equality
from rules.c20 import FILE, FS, every_file, is_files, in_tests, local_fs, path_of_elem, peel, resolved

FLAGS = ("create", "write", "read")
NEVER = ("truncate", "append", "create_new", "custom_flags", "mode", "access_mode", "share_mode", "attributes")


# ---------------------------------------------------------------- booleans
def value(t, asg):
    """value of a boolean term under an assignment of its leaves; None if unknown"""
    if t in asg:
        return asg[t]
    if t.k == "c" and isinstance(t.a[0], (bool, int)):
        return bool(t.a[0])
    if t.k == "op":
        xs = [value(x, asg) for x in t.a[1:] if isinstance(x, V)]
        o = t.a[0]
        if o == "Not":
            return None if xs[0] is None else not xs[0]
        if o == "BitOr":
            return True if True in xs else None if None in xs else False
        if o == "BitAnd":
            return False if False in xs else None if None in xs else True
        if None in xs:
            return None
        if o in ("Eq", "Ne", "BitXor"):
            return (xs[0] == xs[1]) == (o == "Eq")
        if o in ("Gt", "Ge", "Lt", "Le"):
            return {"Gt": xs[0] > xs[1], "Ge": xs[0] >= xs[1], "Lt": xs[0] < xs[1], "Le": xs[0] <= xs[1]}[o]
    if t.k in ("call", "pure") and tail(t) in ("max", "bitor", "or", "min", "bitand", "not") and args_of(t):
        xs = [value(x, asg) for x in args_of(t)]
        if None in xs:
            return None
        return {"max": any, "bitor": any, "or": any, "min": all, "bitand": all}.get(tail(t), lambda v: not v[0])(xs)
    if t.k in ("call", "pure") and tail(t) in ("eq", "ne") and len(args_of(t)) == 2:
        # derived equality of two records (one that is written by hand is followed)
        a, b = (peel(x) for x in args_of(t))
        names = [f for x in (a, b) if x.k == "agg" and not x.a[1] for f, _ in x.a[2]]
        xs = [(value(field(a, f), asg), value(field(b, f), asg)) for f in names] or [(value(a, asg), value(b, asg))]
        r = False if any(None not in x and x[0] != x[1] for x in xs) else None if any(None in x for x in xs) else True
        return r if r is None or tail(t) == "eq" else not r
    q = peel(t)
    return value(q, asg) if q is not t else None


def worlds(st, leaves):
    """assignments of the leaves that agree with what the path knows"""
    out = []
    for vs in itertools.product((False, True), repeat=len(leaves)):
        asg = dict(zip(leaves, vs))
        for t, r in st.ref.items():
            v = value(t, asg)
            if v is not None and (r[0] == "is" and isinstance(r[1], bool) and r[1] != v or r[0] == "not" and v in r[1]):
                break
        else:
            out.append(asg)
    return out


def always(st, leaves, f):
    return all(f(a) for a in worlds(st, leaves))


# ---------------------------------------------------------------- looking up by path
class Walk(Trace):
    """remembers the paths every open file passed was found to differ from"""
    max_hist = 60

    def event(self, eng, st, call):
        c = call.callee
        nxt = c is not None and c.name == "next" and call.terms and contains(call.terms[0], is_files)
        ov = super().event(eng, st, call)
        if nxt and eng.dropped.get(FILE) == ("is", "Some"):
            class S:
                ref = eng.dropped
            diff = frozenset(p for p in same_paths(S, False))
            st.auto = tuple(e for e in st.auto if not (e.kind == "mark" and e.terms[0] == diff)) + (Ev("mark", "", "", "", "", "", (diff,), None, "", ()),)
        return ov

    @staticmethod
    def alias(eng, st, call):
        c = call.callee
        if c is not None and c.name == "next" and call.terms and every_file(call.terms[0]):
            return FILE


def comparisons(st):
    """(one side, other side, equal?) of every known comparison"""
    for t, r in st.ref.items():
        if r[0] != "is" or not isinstance(r[1], bool):
            continue
        if t.k in ("call", "pure") and tail(t) in ("eq", "ne") and len(args_of(t)) == 2:
            x, y = args_of(t)
            yield peel(x), peel(y), r[1] == (tail(t) == "eq")
        elif t.k == "op" and t.a[0] in ("Eq", "Ne") and len(t.a) == 3:
            yield peel(t.a[1]), peel(t.a[2]), r[1] == (t.a[0] == "Eq")


def same_paths(st, want, elem=FILE):
    """paths the file `elem` is known to have (or not to have)"""
    for x, y, eq in comparisons(st):
        if eq == want:
            for a, b in ((x, y), (y, x)):
                if path_of_elem(a, elem):
                    yield b


def tests_path(ctx, over, clo, p, found):
    """does the test succeed exactly (found: only) on files with path p, over all open files?"""
    stages = []
    while over.k in ("call", "pure") and tail(over) == "map" and len(args_of(over)) == 2:
        stages.append(args_of(over)[1])
        over = args_of(over)[0]
    if not every_file(over):
        return False
    elem = x = param("elem")
    for s in reversed(stages):
        r = apply_fn(ctx, s, x, relevant=local_fs)
        if not r or len(r) != 1:
            return False
        x = r[0][0]
    rets = apply_fn(ctx, clo, x, relevant=local_fs)
    if not rets:
        return False
    want = found in ("Some", True)
    for v, ref, h in rets:
        class S:
            pass
        S.ref = dict(ref)
        hit = bool(v.a[0]) if v.k == "c" else v.a[1] == "Some" if v.k == "agg" else None
        if hit is None:
            neg = want
            while v.k == "op" and v.a[0] == "Not":
                neg, v = not neg, v.a[1]
            S.ref[v] = ("is", neg)
        elif hit != want:
            continue
        if not any(y is p for y in same_paths(S, want, elem)):
            return False
    return True


def lookup(ctx, st, hist, p):
    """("none",) if no open file has path p, ("some", file) if this one has, None if not known"""
    if any(e.kind == "call" and e.name == "next" for e in hist):
        if st.ref.get(FILE) == ("is", "None") and all(p in e.terms[0] for e in hist if e.kind == "mark"):
            return ("none", None)
        if st.ref.get(FILE) == ("is", "Some") and any(y is p for y in same_paths(st, True)):
            return ("some", FILE)
    for t, r in st.ref.items():
        if t.k not in ("call", "pure") or r[0] != "is":
            continue
        nm = tail(t)
        if nm in ("find", "position", "any") and len(args_of(t)) == 2 and tests_path(ctx, args_of(t)[0], args_of(t)[1], p, r[1]):
            if r[1] == "None" or r[1] is False:
                return ("none", None)
            if nm == "find" and r[1] == "Some":
                return ("some", t)
        if nm in ("next", "last") and args_of(t) and tail(args_of(t)[0]) == "filter":
            f = args_of(t)[0]
            if tests_path(ctx, args_of(f)[0], args_of(f)[1], p, r[1]):
                return ("none", None) if r[1] == "None" else ("some", t)
    return None


def part(v, elem, *fields):
    """is v this field of the file found?"""
    v = peel(v)
    for f in reversed(fields):
        if not (v.k == "proj" and v.a[1] == "." + f):
            return False
        v = v.a[0]
    return contains(v, lambda x: x is elem) and v.k == "proj"


def leaf(st, terms, elem, *fields):
    """the term by which the path refers to this field of the file found"""
    for t in terms:
        for x in subterms(t):
            if part(x, elem, *fields):
                return x
    return mk("proj", mk("proj", mk("proj", elem, "@Some"), ".0"), "." + fields[0]) if len(fields) == 1 else \
        mk("proj", mk("proj", mk("proj", mk("proj", elem, "@Some"), ".0"), "." + fields[0]), "." + fields[1])


def check(ctx):
    ctx.explanation = ("The flags every file is opened with are compared with the ones asked for, over all combinations a path allows. On every path through opening, whether the "
                       "file was found among the open ones decides what has to follow: nothing found, an ordinary opening with what was asked for; a file found that grants "
                       "everything, that file's handle; otherwise a reopening with the union of both accesses under the old identity and signature.")
    ctx.rules = ["a file is opened with the create, write and read flags asked for, and no others", "what an open file claims to grant is what it was opened with",
                 "a file already open is recognised by its resolved path, among all open files", "an open file that grants everything asked for is reused, and only then",
                 "otherwise it is reopened with the union of the accesses, under the same id and signature", "an open file is not given up before the reopening has succeeded",
                 "the handler asks for what the request asks for"]
    check_open(ctx)
    check_manager(ctx)
    check_handler(ctx)


def check_open(ctx):
    n = {"opened": 0}
    for b in ctx.anchor(ctx.f.fns("open", self_adt="LocalFile"), "LocalFile::open"):
        names = [b.locals[i][1] for i in range(1, b.argc + 1)]
        path, flags = param(names[0]), dict(zip(FLAGS, map(param, names[1:])))
        leaves = list(flags.values())

        def on_event(eng, st, hist, ev):
            if ev.kind != "call":
                return
            if ev.name == "open" and "OpenOptions" in ev.path:
                n["opened"] += 1
                got = {}
                for e in hist:
                    if e.kind == "call" and "OpenOptions" in e.path and len(e.terms) > 1:
                        got[e.name] = e.terms[1]
                for f in FLAGS:
                    t = got.get(f)
                    ok = always(st, leaves, lambda a: (value(t, a) if t is not None else False) == a[flags[f]])
                    eng.oblige("a file is opened as asked", ok, "open:" + f, "a file is opened with another %s flag than the one asked for" % f, st, ev.span)
                for f in NEVER:
                    t = got.get(f)
                    if t is not None and not always(st, leaves, lambda a: value(t, a) is False):
                        eng.report("open:" + f, "a file is opened with the %s flag, which was not asked for" % f, st, ev.span)
                if peel(ev.terms[1]) is not path:
                    eng.report("open:path", "another path is opened than the one asked for", st, ev.span)
            elif FS.match(ev.path) and ev.name in ("open", "create", "create_new", "write", "set_len", "remove_file", "rename", "copy", "options", "truncate") and "OpenOptions" not in ev.path:
                eng.report("open:" + ev.short, "opening a file also uses %s" % ev.short, st, ev.span)

        def on_ret(eng, st, hist, val):
            if not (val.k == "agg" and val.a[1] == "Ok"):
                return
            f = dict(val.a[2])["0"]
            p = dict(f.a[2]).get("permissions") if f.k == "agg" else None
            q = dict(p.a[2]) if p is not None and p.k == "agg" else {}
            for k in ("write", "read"):
                ok = k in q and always(st, leaves, lambda a: value(q[k], a) == a[flags[k]])
                eng.oblige("what a file grants is what it was opened with", ok, "open:grants:" + k, "an opened file claims another %s access than it was opened with" % k, st)
        r = Trace(want=lambda c: not c.local and FS.match(c.path) is not None, on_event=on_event, on_ret=on_ret, wantbranch=lambda t: False)
        r.relevant_body = local_fs
        r.keep_all_refinements = True
        ctx.run(r, ctx.f.coroutine_of(b) or b, what="LocalFile::open")
    ctx.count("openings", n["opened"], 1)


def is_open(c):
    return c.local and c.name == "open" and path_match(c.self_adt, "LocalFile")


def check_manager(ctx):
    n = {"new": 0, "again": 0, "reused": 0}
    for b in ctx.anchor(ctx.f.fns("open_file", self_adt="FileSystemManager"), "FileSystemManager::open_file"):
        names = [b.locals[i][1] for i in range(2, b.argc + 1)]
        path, create, write, read = map(param, names)

        def target(st, hist, v):
            """the resolved form of the path to open, on this path of the program"""
            for t, r in st.ref.items():
                if tail(t) == "canonicalize" and peel(args_of(t)[0]) is path:
                    return mk("proj", mk("proj", t, "@Ok"), ".0") if r == ("is", "Ok") else path
            q = peel(v) if v is not None else path
            return q

        def perms(st, elem, terms):
            ts = list(terms) + list(st.ref)
            return leaf(st, ts, elem, "permissions", "read"), leaf(st, ts, elem, "permissions", "write")

        def opened(hist):
            o = [e for e in hist if e.kind == "call" and e.name == "open"]
            return o[-1] if o else None

        def on_event(eng, st, hist, ev):
            if ev.kind != "call":
                return
            if ev.name == "open" and len(ev.terms) == 4:
                p = target(st, hist, ev.terms[0])
                if not resolved(st, hist, p):
                    eng.report("lookup:path", "a file is looked up by a path that was not resolved", st, ev.span)
                q = peel(ev.terms[0])
                if q is not p and q is not path:
                    eng.report("again:path", "another path is opened than the one asked for", st, ev.span)
                c = ev.terms[1]
                lv = [create, write, read]
                look = lookup(ctx, st, hist, p)
                if not eng.oblige("whether the file is open is known", look is not None, "lookup:open", "a file is opened without its path having been compared with those of all open files",
                                  st, ev.span):
                    return
                if look[0] == "none":
                    n["new"] += 1
                    for f, t, w in (("create", c, create), ("write", ev.terms[2], write), ("read", ev.terms[3], read)):
                        eng.oblige("a new file is opened as asked", always(st, lv, lambda a: value(t, a) == a[w]), "new:" + f, "a file is opened with another %s flag than the one asked for" % f,
                                   st, ev.span)
                    return
                n["again"] += 1
                pr, pw = perms(st, look[1], ev.terms)
                lv = lv + [pr, pw]
                eng.oblige("a file is only created if asked", always(st, lv, lambda a: value(c, a) is False or value(c, a) == a[create]), "again:create", "a file is created without being asked to", st, ev.span)
                for f, t, w, o in (("write", ev.terms[2], write, pw), ("read", ev.terms[3], read, pr)):
                    eng.oblige("a reopened file has both accesses", always(st, lv, lambda a: value(t, a) == (a[w] or a[o])), "again:" + f,
                               "a file is reopened with another %s access than the union of what it had and what was asked for" % f, st, ev.span)
                eng.oblige("a file is reopened only if needed", always(st, lv, lambda a: a[read] and not a[pr] or a[write] and not a[pw]), "again:needless",
                           "a file is reopened although it already grants what was asked for", st, ev.span)
            elif contains(ev.terms[0], is_files) and ev.name in ("remove", "remove_entry", "clear", "retain", "drain", "insert") if ev.terms else False:
                o = opened(hist)
                if o is None or st.ref.get(o.res) != ("is", "Ok"):
                    eng.report("given up", "the open files are changed before opening has succeeded", st, ev.span)

        def stored(st, hist):
            w = [e for e in hist if e.kind == "call" and e.name in ("insert", "insert_entry", "or_insert") and contains(e.terms[0], is_files)]
            return w[-1] if w else None

        def on_ret(eng, st, hist, val):
            if not (val.k == "agg" and val.a[1] == "Ok"):
                return
            h = dict(val.a[2])["0"]
            f = dict(h.a[2]) if h.k == "agg" else {}
            hid, hsig = f.get("id", h), f.get("sig", h)
            o = opened(hist)
            p = target(st, hist, None)
            look = lookup(ctx, st, hist, p)
            if o is None:
                n["reused"] += 1
                if not eng.oblige("a handle belongs to the file asked for", look is not None and look[0] == "some", "reuse:found", "opening succeeds without the file having been opened or found open", st):
                    return
                pr, pw = perms(st, look[1], [val])
                eng.oblige("a reused file grants what was asked for", always(st, [create, write, read, pr, pw], lambda a: (a[pr] or not a[read]) and (a[pw] or not a[write])),
                           "reuse:grants", "an open file is reused although it does not grant what was asked for", st)
                eng.oblige("a reused file keeps its identity", part(hid, look[1], "id") and part(hsig, look[1], "sig"), "reuse:handle",
                           "the handle of a reused file is not that file's own", st)
                return
            if look is None:
                return
            w = stored(st, hist)
            if not eng.oblige("an opened file is kept", w is not None, "kept", "a file is opened but not kept among the open files", st):
                return
            key, file = (w.terms[1], w.terms[2]) if len(w.terms) > 2 else (None, w.terms[-1])
            new = mk("proj", mk("proj", o.res, "@Ok"), ".0")
            got = {x: field(file, x) for x in ("id", "sig", "permissions")}
            if not contains(file, lambda x: x is o.res):
                eng.report("kept:other", "another file is kept than the one opened", st)
            if not (got["permissions"] is mk("proj", new, ".permissions")):
                eng.report("kept:grants", "what an opened file grants is changed after opening", st)
            if look[0] == "some":
                same = part(got["id"], look[1], "id") and part(got["sig"], look[1], "sig")
                eng.oblige("a reopened file keeps its identity", same, "again:identity", "a reopened file does not keep its id and signature", st)
                ok = part(hid, look[1], "id") and part(hsig, look[1], "sig") and (key is None or part(key, look[1], "id"))
            else:
                same = unconv(got["id"]) is mk("proj", new, ".id") and unconv(got["sig"]) is mk("proj", new, ".sig")
                if not same:
                    eng.report("new:identity", "a newly opened file loses its id or signature", st)
                ok = hid is mk("proj", new, ".id") and hsig is mk("proj", new, ".sig") and (key is None or peel(key) is mk("proj", new, ".id"))
            eng.oblige("the handle is that of the file kept", ok, "handle", "the handle returned is not the one the opened file is kept under", st)
        r = Walk(want=lambda c: is_open(c) or not c.local and c.name in ("next", "find", "insert", "remove", "remove_entry", "clear", "retain", "drain", "insert_entry", "or_insert"),
                 on_event=on_event, on_ret=on_ret, wantbranch=lambda t: False, opaque=is_open)
        r.relevant_body = local_fs
        r.keep_all_refinements = True
        ctx.run(r, ctx.f.coroutine_of(b) or b, what="FileSystemManager::open_file")
    ctx.count("first openings", n["new"], 1)
    ctx.count("reopenings", n["again"], 1)
    ctx.count("reuses", n["reused"], 1)


def check_handler(ctx):
    n = {"asked": 0}
    bs = [b for b in ctx.f.fns("open_file") if "::handler::" in b.path and not in_tests(b)]
    for b in ctx.anchor(bs, "handler::open_file"):
        args = param(b.locals[2][1] or "args")
        want = {"path": mk("proj", args, ".path"), "create": mk("proj", args, ".create_if_missing"), "write": mk("proj", args, ".write_access"), "read": mk("proj", args, ".read_access")}

        def is_op(c):
            return c.local and c.name == "open_file" and path_match(c.self_adt, "FileSystemManager")

        def on_event(eng, st, hist, ev):
            if ev.kind != "call":
                return
            n["asked"] += 1
            lv = list(want.values())[1:]
            for i, (k, w) in enumerate(want.items()):
                t = ev.terms[i + 1]
                ok = peel(t) is w if k == "path" else always(st, lv, lambda a: value(t, a) == a[w])
                eng.oblige("the handler asks for what the request asks for", ok, "handler:" + k, "the handler opens a file with another %s than the request's" % k, st, ev.span)
        r = Trace(want=is_op, on_event=on_event, opaque=is_op, wantbranch=lambda t: False)
        r.keep_all_refinements = True
        ctx.run(r, ctx.f.coroutine_of(b) or b, what="handler::open_file")
    ctx.count("openings asked for by the handler", n["asked"], 1)
